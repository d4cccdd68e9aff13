#include "tuple.hpp"
#include "opaque.hpp"
using namespace Helper; using namespace vf;
using T5 = Tuple<E,V,K,E,V>; using T3 = Tuple<E,V,K>; using Pr = Pair<E,V>; using T7 = Tuple<V,E,K,E,V,K,E>;
extern "C" {
void vf_lpair(E& a, V& b, E const& x, V const& y) { make_lpair(a,b)=Pr(x,y); }
void vf_lpair_same(E& a, E& b, E const& x, E const& y) { make_lpair(a,b)=Pair<E,E>(x,y); }
// variables that are elements of one array, or parts of one object, in either order
void vf_lpair_array(E* a, size_t i, size_t j, E const& x, E const& y) { make_lpair(a[i],a[j])=Pair<E,E>(x,y); }
void vf_ltuple_array(E* a, size_t i, size_t j, size_t k, E const& x, E const& y, E const& z) { make_ltuple(a[i],a[j],a[k])=Tuple<E,E,E>(x,y,z); }
void vf_ltuple1(E& a, E const& x) { make_ltuple(a)=Tuple<E>(x); }
void vf_ltuple2(E& a, E& b, E const& x, E const& y) { make_ltuple(a,b)=Tuple<E,E>(x,y); }
void vf_ltuple3(E& a, E& b, E& c, E const& x, E const& y, E const& z) { make_ltuple(a,b,c)=Tuple<E,E,E>(x,y,z); }
void vf_ltuple5(E& a, E& b, E& c, E& d, E& e, E const& x, E const& y, E const& z, E const& u, E const& v) { make_ltuple(a,b,c,d,e)=Tuple<E,E,E,E,E>(x,y,z,u,v); }
void vf_ltuple_mixed(E& a, V& b, K& c, E const& x, V const& y, K const& z) { make_ltuple(a,b,c)=Tuple<E,V,K>(x,y,z); }
#define VF_GET(N,NAME,TT) \
  void const* vf_##NAME##_##TT(TT& t, void const*& as_const, void const*& component) { \
    auto& r=get_##NAME(t); auto const& k=get_##NAME(static_cast<TT const&>(t)); as_const=&k; component=&std::get<N>(t); return &r; }
VF_GET(0,first,T5) VF_GET(1,second,T5) VF_GET(2,third,T5) VF_GET(3,fourth,T5) VF_GET(4,fifth,T5)
VF_GET(0,first,T7) VF_GET(1,second,T7) VF_GET(2,third,T7) VF_GET(3,fourth,T7) VF_GET(4,fifth,T7)
VF_GET(0,first,T3) VF_GET(1,second,T3) VF_GET(2,third,T3) VF_GET(0,first,Pr) VF_GET(1,second,Pr)
}
// the accessors designate components (not copies), of the constness and value category of their argument
template<class A, class B> constexpr bool is = std::is_same<A,B>::value;
static_assert(is<decltype(get_first(std::declval<T5&>())),E&> && is<decltype(get_second(std::declval<T5&>())),V&> && is<decltype(get_third(std::declval<T5&>())),K&> && is<decltype(get_fourth(std::declval<T5&>())),E&> && is<decltype(get_fifth(std::declval<T5&>())),V&>);
static_assert(is<decltype(get_first(std::declval<T5 const&>())),E const&> && is<decltype(get_second(std::declval<T5 const&>())),V const&> && is<decltype(get_third(std::declval<T5 const&>())),K const&> && is<decltype(get_fourth(std::declval<T5 const&>())),E const&> && is<decltype(get_fifth(std::declval<T5 const&>())),V const&>);
