#include "opaque.hpp"
#include "container.hpp"
using namespace Helper; using namespace vf;
typedef std::ostream& O;
// iterators over an array of elements, written out so that the element is reached the way each writer asks for it
// an iterator to pointers into base: position k leads to the element base[index[k]]
struct Via { E const* base; size_t const* k; E const* operator*() const { return base + *k; } Via& operator++() { ++k; return *this; } Via operator++(int) { Via r = *this; ++k; return r; } bool operator!=(Via const& o) const { return k != o.k; } bool operator==(Via const& o) const { return k == o.k; } };
struct KeyVia { E const* keys; E const* base; size_t const* k; struct It { E const& first; E const* second; It const* operator->() const { return this; } };
  It operator->() const { return It{keys[*k], base + *k}; } It operator*() const { return It{keys[*k], base + *k}; } KeyVia& operator++() { ++k; return *this; } KeyVia operator++(int) { KeyVia r = *this; ++k; return r; } bool operator!=(KeyVia const& o) const { return k != o.k; } bool operator==(KeyVia const& o) const { return k == o.k; } };
struct CoefVia { E const* a; E const* b; size_t const* k; struct It { E const& x; E const& y; E const& index() const { return x; } E const& coefficient() const { return y; } It const* operator->() const { return this; } };
  It operator->() const { return It{a[*k], b[*k]}; } It operator*() const { return It{a[*k], b[*k]}; } CoefVia& operator++() { ++k; return *this; } CoefVia operator++(int) { CoefVia r = *this; ++k; return r; } bool operator!=(CoefVia const& o) const { return k != o.k; } bool operator==(CoefVia const& o) const { return k == o.k; } };
extern "C" {
void vf_default(Array<E>* p) { new (p) Array<E>(); }
void vf_filled(Array<E>* p, size_t n, E const& x) { new (p) Array<E>(n, x); }
void vf_size(SharedArray<E>* p, size_t n) { new (p) SharedArray<E>(n); }
void vf_new_vector(std::vector<E>* p) { new (p) std::vector<E>(); }
void vf_new_list(List<E>* p) { new (p) List<E>(); }
void vf_new_bools(std::vector<bool>* p) { new (p) std::vector<bool>(); }
void vf_new_doubles(std::vector<double>* p) { new (p) std::vector<double>(); }
void vf_new_linked(LinkedList<E>* p) { new (p) LinkedList<E>(); }
void vf_new_pair(std::pair<K,V>* p, K const& k, V const& v) { new (p) std::pair<K,V>(k, v); }
void vf_new_tuple1(std::tuple<K>* p, K const& k) { new (p) std::tuple<K>(k); }
void vf_new_tuple2(std::tuple<K,V>* p, K const& k, V const& v) { new (p) std::tuple<K,V>(k, v); }
void vf_new_tuple3(std::tuple<K,V,E>* p, K const& k, V const& v, E const& e) { new (p) std::tuple<K,V,E>(k, v, e); }
void vf_new_tuple5(std::tuple<K,V,E,P,K>* p, K const& k, V const& v, E const& e, P const& x, K const& l) { new (p) std::tuple<K,V,E,P,K>(k, v, e, x, l); }
void vf_array(O os, Array<E> const& a) { os << a; }
void vf_shared(O os, SharedArray<E> const& a) { os << a; }
void vf_vector(O os, std::vector<E> const& a) { os << a; }
void vf_list(O os, List<E> const& a) { os << a; }
void vf_bools(O os, std::vector<bool> const& a) { os << a; }
void vf_doubles(O os, std::vector<double> const& a) { os << a; }
void vf_linked(O os, LinkedList<E> const& a) { os << a; }
void vf_stdlist(O os, std::list<E> const& a) { os << a; }
void vf_set(O os, Set<K> const& a) { os << a; }
void vf_stdset(O os, std::set<K> const& a) { os << a; }
void vf_map(O os, Map<K,V> const& a) { os << a; }
void vf_stdmap(O os, std::map<K,V> const& a) { os << a; }
void vf_pair(O os, std::pair<K,V> const& a) { os << a; }
void vf_tuple1(O os, std::tuple<K> const& a) { os << a; }
void vf_tuple2(O os, std::tuple<K,V> const& a) { os << a; }
void vf_tuple3(O os, std::tuple<K,V,E> const& a) { os << a; }
void vf_tuple5(O os, std::tuple<K,V,E,P,K> const& a) { os << a; }
O vf_seq(O os, E const* b, E const* e) { return write_sequence(os, b, e); }
O vf_seq_c(O os, E const* b, E const* e, char o, char c, char s) { return write_sequence(os, b, e, o, c, s); }
O vf_seq_vec(O os, std::vector<E> const& v, char o, char c, char s) { return write_sequence(os, v.begin(), v.end(), o, c, s); }
O vf_seq_set(O os, std::set<K> const& v, char o, char c, char s) { return write_sequence(os, v.begin(), v.end(), o, c, s); }
O vf_ptr(O os, E const* base, size_t const* b, size_t const* e) { return write_pointer_sequence(os, Via{base, b}, Via{base, e}); }
O vf_ptr_c(O os, E const* base, size_t const* b, size_t const* e, char o, char c, char s) { return write_pointer_sequence(os, Via{base, b}, Via{base, e}, o, c, s); }
O vf_maps(O os, std::map<K,V> const& m) { return write_map_sequence(os, m.begin(), m.end()); }
O vf_maps_c(O os, std::map<K,V> const& m, char o, char c, char s, char d) { return write_map_sequence(os, m.begin(), m.end(), o, c, s, d); }
O vf_mapptr(O os, E const* keys, E const* base, size_t const* b, size_t const* e) { return write_map_pointer_sequence(os, KeyVia{keys, base, b}, KeyVia{keys, base, e}); }
O vf_mapptr_c(O os, E const* keys, E const* base, size_t const* b, size_t const* e, char o, char c, char s, char d) { return write_map_pointer_sequence(os, KeyVia{keys, base, b}, KeyVia{keys, base, e}, o, c, s, d); }
O vf_coef(O os, E const* x, E const* y, size_t const* b, size_t const* e) { return write_coefficient_map_sequence(os, CoefVia{x, y, b}, CoefVia{x, y, e}); }
O vf_coef_c(O os, E const* x, E const* y, size_t const* b, size_t const* e, char o, char c, char s, char d) { return write_coefficient_map_sequence(os, CoefVia{x, y, b}, CoefVia{x, y, e}, o, c, s, d); }
}
