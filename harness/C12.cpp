#include "opaque.hpp"
#include "container.hpp"
using namespace Helper; using namespace vf;
typedef Map<K,V> M; typedef std::map<K,V> B; typedef Map<K,E> ME; typedef std::map<K,E> BE;
extern "C" {
void vf_new_list(List<E>* p) { new (p) List<E>(); }
E& vf_index(ME& m, K const& k) { return m[k]; }
void vf_assign(ME& m, K const& k, E const& x) { m[k] = x; }
void vf_assign_own(ME& m, K const& k, K const& l) { m[k] = m.value(l); }
V const& vf_index_const(M const& m, K const& k) { return m[k]; }
V const& vf_get(M const& m, K const& k) { return m.get(k); }
bool vf_has_key(M const& m, K const& k) { return m.has_key(k); }
V& vf_value(M& m, K const& k) { return m.value(k); }
V const& vf_value_const(M const& m, K const& k) { return m.value(k); }
void vf_set_value(M& m, K const& k, V const& v) { m.value(k) = v; }
void vf_insert_pair(M& m, K const& k, V const& v) { std::pair<K,V> const kv(k, v); m.insert(kv); }
void vf_insert_var(M& m, K const& k, V const& v) { std::pair<K,V> kv(k, v); m.insert(kv); }
void vf_insert_tmp(M& m, K const& k, V const& v) { m.insert(std::pair<K,V>(k, v)); }
void vf_insert(M& m, K const& k, V const& v) { m.insert(k, v); }
void vf_insert_own(M& m, K const& k, K const& l) { m.insert(k, m.value(l)); }
V& vf_free_insert(M& m, K const& k, V const& v) { return insert(m, k, v); }
void vf_adjoin(M& m, B const& n) { m.adjoin(n); }
void vf_join(M* r, M const& m, M const& n) { new (r) M(join(m, n)); }
void vf_remove_keys(M& m, Set<K> const& s) { m.remove_keys(s); }
void vf_keys(Set<K>* r, M const& m) { new (r) Set<K>(m.keys()); }
void vf_values(List<E>* r, ME const& m) { new (r) List<E>(m.values()); }
void vf_restrict(M* r, B const& m, std::set<K> const& s) { new (r) M(restrict_keys(m, s)); }
void vf_copy(M* r, M const& m) { new (r) M(m); }
void vf_from_std(M* r, B const& m) { new (r) M(m); }
void vf_convert(ME* r, BE const& m) { new (r) ME(m); }
void vf_convert_values(ME* r, std::map<K,K> const& m) { new (r) ME(m); }
}
