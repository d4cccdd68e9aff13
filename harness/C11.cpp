#include "opaque.hpp"
#include "container.hpp"
using namespace Helper; using namespace vf;
typedef Set<K> S; typedef std::set<K> B; typedef std::vector<K> L;
extern "C" {
void vf_new_list(L* p) { new (p) L(); }
void vf_new_set(S* p) { new (p) S(); }
bool vf_m_contains(S const& a, K const& t) { return a.contains(t); }
bool vf_m_subset(S const& a, B const& b) { return a.subset(b); }
bool vf_m_disjoint(S const& a, B const& b) { return a.disjoint(b); }
bool vf_m_disjoint_list(S const& a, L const& b) { return a.disjoint(b); }
S& vf_m_adjoin(S& a, B const& b) { return a.adjoin(b); }
S& vf_m_remove_value(S& a, K const& t) { return a.remove(t); }
S& vf_m_remove_first(S& a) { return a.remove(*a.begin()); }
S& vf_m_remove(S& a, B const& b) { return a.remove(b); }
S& vf_m_restrict(S& a, B const& b) { return a.restrict(b); }
S& vf_m_remove_list(S& a, L const& b) { return a.remove(b); }
Set<E>& vf_m_remove_list_convert(Set<E>& a, L const& b) { return a.remove(b); }
void vf_apply(S* r, G const& f, S const& a) { new (r) S(apply(f, a)); }
void vf_apply_other(Set<V>* r, G const& f, Set<E> const& a) { new (r) Set<V>(apply(f, a)); }
void vf_join(S* r, S const& a, S const& b) { new (r) S(join(a, b)); }
bool vf_contains(B const& a, K const& t) { return contains(a, t); }
bool vf_subset(B const& a, B const& b) { return subset(a, b); }
bool vf_disjoint(B const& a, B const& b) { return disjoint(a, b); }
bool vf_disjoint_list(B const& a, L const& b) { return disjoint(a, b); }
void vf_intersection(S* r, B const& a, B const& b) { new (r) S(intersection(a, b)); }
void vf_intersection_list(S* r, B const& a, L const& b) { new (r) S(intersection(a, b)); }
void vf_difference(S* r, B const& a, B const& b) { new (r) S(difference(a, b)); }
B& vf_remove(B& a, B const& b) { return remove(a, b); }
B& vf_restrict(B& a, B const& b) { return restrict(a, b); }
void vf_make_set(S* r, L const& b) { new (r) S(make_set(b)); }
void vf_set_list(S* r, L const& b) { new (r) S(b); }
void vf_set_list_convert(Set<E>* r, L const& b) { new (r) Set<E>(b); }
void vf_set_ilist(S* r, K const& x, K const& y, K const& z) { InitializerList<K> l = {x, y, z}; new (r) S(l); }
void vf_set_set(S* r, B const& a) { new (r) S(a); }
void vf_set_convert(Set<E>* r, B const& a) { new (r) Set<E>(a); }
void vf_set_explicit(Set<E>* r, std::set<V> const& a) { new (r) Set<E>(a); }
void vf_make_list(List<K>* r, S const& a) { new (r) List<K>(make_list(a)); }
void vf_list(List<K>* r, S const& a) { new (r) List<K>(static_cast<List<K>>(a)); }
}
