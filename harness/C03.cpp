#include <iostream>
#include <cstdlib>
#include "array.hpp"
#include "opaque.hpp"
using namespace Helper; using namespace vf;
using A = Array<E>;
extern "C" {
void vf_default(A* at) { new (at) A(); }
void vf_size(A* at, size_t n) { new (at) A(n); }
void vf_uninit(A* at, size_t n) { new (at) A(n,Uninitialised()); }
void vf_filled(A* at, size_t n, E const& x) { new (at) A(n,x); }
void vf_ilist(A* at, std::initializer_list<E> l) { new (at) A(l); }
void vf_ilist_par(A* at, std::initializer_list<double> l, P const& p) { new (at) A(l,p); }
void vf_generate(A* at, size_t n, G const& g) { new (at) A(n,g); }
void vf_range(A* at, E const* f, E const* l) { new (at) A(f,l); }
void vf_conv(A* at, Array<K> const& a) { new (at) A(a); }
void vf_econv(A* at, Array<V> const& a) { new (at) A(a); }
void vf_conv_par(A* at, Array<K> const& a, P const& p) { new (at) A(a,p); }
void vf_copy(A* at, A const& a) { new (at) A(a); }
void vf_move(A* at, A& a) { new (at) A(std::move(a)); }
void vf_destroy(A* a) { a->~A(); }
A& vf_assign(A& a, A const& b) { return a=b; }
A& vf_move_assign(A& a, A& b) { return a=std::move(b); }
void vf_resize(A& a, size_t n) { a.resize(n); }
void vf_resize_value(A& a, size_t n, E const& x) { a.resize(n,x); }
void vf_reallocate(A& a, size_t n) { a.reallocate(n); }
void vf_swap(A& a, A& b) { a.swap(b); }
void vf_fill(A& a, E const& x) { a.fill(x); }
void vf_fill_from(A& a, E const* f) { a.fill(f); }
void vf_assign_range(A& a, E const* f, E const* l) { a.assign(f,l); }
bool vf_equal(A const& a, A const& b) { return a==b; }
bool vf_unequal(A const& a, A const& b) { return a!=b; }
// access
bool vf_empty(A const& a) { return a.empty(); }
size_t vf_size_of(A const& a) { return a.size(); }
E& vf_at(A& a, size_t i) { return a.at(i); }
E const& vf_cat(A const& a, size_t i) { return a.at(i); }
E& vf_index(A& a, size_t i) { return a[i]; }
E const& vf_cindex(A const& a, size_t i) { return a[i]; }
E& vf_front(A& a) { return a.front(); }
E const& vf_cfront(A const& a) { return a.front(); }
E& vf_back(A& a) { return a.back(); }
E const& vf_cback(A const& a) { return a.back(); }
E* vf_begin(A& a) { return a.begin(); }
E const* vf_cbegin(A const& a) { return a.begin(); }
E* vf_end(A& a) { return a.end(); }
E const* vf_cend(A const& a) { return a.end(); }
void vf_ksize(Array<K>* at, size_t n, K const& x) { new (at) Array<K>(n,x); }
void vf_kdefault(Array<K>* at) { new (at) Array<K>(); }
void vf_vsize(Array<V>* at, size_t n, V const& x) { new (at) Array<V>(n,x); }
void vf_vdefault(Array<V>* at) { new (at) Array<V>(); }
}
