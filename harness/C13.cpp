#include "opaque.hpp"
#include "container.hpp"
using namespace Helper; using namespace vf;
extern "C" {
void vf_default(Array<E>* p) { new (p) Array<E>(); }
void vf_filled(Array<E>* p, size_t n, E const& x) { new (p) Array<E>(n, x); }
void vf_new_E(List<E>* p) { new (p) List<E>(); }
void vf_new_V(List<V>* p) { new (p) List<V>(); }
void vf_new_K(List<K>* p) { new (p) List<K>(); }
void vf_new_linked(LinkedList<E>* p) { new (p) LinkedList<E>(); }
void vf_new_linked_K(LinkedList<K>* p) { new (p) LinkedList<K>(); }
void vf_append(List<E>& l, E const& x) { l.append(x); }
void vf_append_own(List<E>& l, size_t i) { l.append(l[i]); }
void vf_append_list(List<E>& l, std::vector<E> const& m) { l.append(m); }
void vf_concatenate(List<E>& l, std::vector<E> const& m) { l.concatenate(m); }
void vf_linked_append(LinkedList<E>& l, E const& x) { l.append(x); }
void vf_linked_append_own(LinkedList<E>& l) { l.append(l.front()); }
void vf_linked_append_list(LinkedList<E>& l, LinkedList<E> const& m) { l.append(m); }
void vf_linked_concatenate(LinkedList<E>& l, LinkedList<E> const& m) { l.concatenate(m); }
void vf_catenate(List<E>* r, List<E> const& l, List<E> const& m) { new (r) List<E>(catenate(l, m)); }
void vf_catenate_value(List<E>* r, List<E> const& l, E const& x) { new (r) List<E>(catenate(l, x)); }
void vf_apply(List<V>* r, G const& f, List<E> const& l) { new (r) List<V>(apply(f, l)); }
void vf_elementwise(List<V>* r, G const& f, List<E> const& l) { new (r) List<V>(elementwise(f, l)); }
void vf_elementwise2(List<K>* r, G const& f, List<E> const& l, List<V> const& m) { new (r) List<K>(elementwise(f, l, m)); }
void vf_list_vector(List<E>* r, std::vector<E> const& l) { new (r) List<E>(l); }
void vf_list_copy(List<E>* r, List<E> const& l) { new (r) List<E>(l); }
void vf_list_value(List<E>* r, E const& x) { new (r) List<E>(x); }
void vf_list_convert(List<E>* r, List<K> const& l) { new (r) List<E>(l); }
void vf_list_explicit(List<E>* r, std::vector<V> const& l) { new (r) List<E>(l); }
void vf_linked_fill(LinkedList<E>* r, unsigned int n, E const& x) { new (r) LinkedList<E>(n, x); }
void vf_linked_size(LinkedList<E>* r, unsigned int n) { new (r) LinkedList<E>(n); }
void vf_linked_std(LinkedList<E>* r, std::list<E> const& l) { new (r) LinkedList<E>(l); }
void vf_linked_copy(LinkedList<E>* r, LinkedList<E> const& l) { new (r) LinkedList<E>(l); }
void vf_linked_list(LinkedList<E>* r, List<E> const& l) { new (r) LinkedList<E>(l); }
void vf_linked_list_convert(LinkedList<E>* r, List<K> const& l) { new (r) LinkedList<E>(l); }
void vf_linked_convert(LinkedList<E>* r, LinkedList<K> const& l) { new (r) LinkedList<E>(l); }
void vf_linked_range(LinkedList<E>* r, E const* b, E const* e) { new (r) LinkedList<E>(b, e); }
void vf_linked_range_list(LinkedList<E>* r, List<E> const& l) { new (r) LinkedList<E>(l.begin(), l.end()); }
void vf_make_array_value(Array<E>* r, E const& x) { new (r) Array<E>(make_array(x)); }
void vf_make_array(Array<E>* r, std::vector<E> const& l) { new (r) Array<E>(make_array(l)); }
void vf_make_array_list(Array<E>* r, List<E> const& l) { new (r) Array<E>(make_array(l)); }
void vf_make_list_list(List<E>* r, List<E> const& l) { new (r) List<E>(make_list(l)); }
void vf_make_array_copy(Array<E>* r, Array<E> const& a) { new (r) Array<E>(make_array(a)); }
void vf_make_list_value(List<E>* r, E const& x) { new (r) List<E>(make_list(x)); }
void vf_make_list(List<E>* r, std::vector<E> const& l) { new (r) List<E>(make_list(l)); }
void vf_make_list_array(List<E>* r, Array<E> const& a) { new (r) List<E>(make_list(a)); }
void vf_make_list_set(List<K>* r, Set<K> const& s) { new (r) List<K>(make_list(s)); }
void vf_set_list(List<K>* r, Set<K> const& s) { new (r) List<K>(static_cast<List<K>>(s)); }
}
