#include <iostream>
#include <cstdlib>
#include "array.hpp"
#include "opaque.hpp"
using namespace Helper; using namespace vf;
using A = SharedArray<E>;
extern "C" {
void vf_size(A* at, size_t n) { new (at) A(n); }
void vf_filled(A* at, size_t n, E const& x) { new (at) A(n,x); }
void vf_ilist(A* at, std::initializer_list<E> const& l) { new (at) A(l); }
void vf_copy(A* at, A const& a) { new (at) A(a); }
void vf_destroy(A* a) { a->~A(); }
A& vf_assign(A& a, A const& b) { return a=b; }
size_t vf_size_of(A const& a) { return a.size(); }
E& vf_index(A& a, size_t i) { return a[i]; }
E const& vf_cindex(A const& a, size_t i) { return a[i]; }
E* vf_begin(A& a) { return a.begin(); }
E const* vf_cbegin(A const& a) { return a.begin(); }
E* vf_end(A& a) { return a.end(); }
E const* vf_cend(A const& a) { return a.end(); }
}
