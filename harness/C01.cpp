#include <string>
#include <iostream>
#include <cstdlib>
#include "lru_cache.hpp"
#include "opaque.hpp"
using namespace Helper; using vf::K; using vf::V;
using Cache = LRUCache<K,V>;
extern "C" {
void vf_construct(Cache* at, size_t n) { new (at) Cache(n); }
bool vf_has_label(Cache& c, K const& k) { return c.has_label(k); }
V const& vf_get(Cache& c, K const& k) { return c.get(k); }
size_t vf_age(Cache& c, K const& k) { return c.age(k); }
void vf_put(Cache& c, K const& k, V const& v) { c.put(k,v); }
size_t vf_current_size(Cache const& c) { return c.current_size(); }
size_t vf_maximum_size(Cache const& c) { return c.maximum_size(); }
}
