#include "wit.hpp"
#include "tuple.hpp"
using namespace Helper; using namespace wit;
using S = std::string; using T5 = Tuple<S,int,double,S,Tracked>; using T4 = Tuple<int,S,int,S>; using T3 = Tuple<int,int,int>; using Pr = Pair<S,Tracked>;
template<class T> void access(T t, S const& nm) {
    T u = t; T const& c = t; begin("accessors of " + nm);
    expect(&get_first(t) == &std::get<0>(t) && &get_first(c) == &std::get<0>(c), "first component"); expect(&get_second(t) == &std::get<1>(t) && &get_second(c) == &std::get<1>(c), "second component");
    if constexpr (std::tuple_size_v<T> > 2) expect(&get_third(t) == &std::get<2>(t) && &get_third(c) == &std::get<2>(c), "third component");
    if constexpr (std::tuple_size_v<T> > 3) expect(&get_fourth(t) == &std::get<3>(t) && &get_fourth(c) == &std::get<3>(c), "fourth component");
    if constexpr (std::tuple_size_v<T> > 4) expect(&get_fifth(t) == &std::get<4>(t) && &get_fifth(c) == &std::get<4>(c), "fifth component");
    expect(t == u, "the object is unchanged"); }
void wit::run() {
    for (int i = 0; i < 50; ++i) {
        int k = rnd(1000), l = rnd(1000), m = rnd(1000); S s = S(rnd(40), 'a' + i % 26), t = S(rnd(40), 'b');
        access(T5(s, k, l / 4.0, t, Tracked(m)), "a tuple of five"); access(T4(k, s, l, t), "a tuple of four"); access(T3(k, l, m), "a tuple of three"); access(Pr(s, Tracked(k)), "a pair"); access(Tuple<int,int>(k, l), "a tuple of two"); access(Tuple<int,int,int,int,int>(k, l, m, i, 5), "a tuple of five"); access(Tuple<int,int,int,int,int,int>(k, l, m, i, 5, 6), "a tuple of six"); access(Tuple<S,int,S,int,S,int,S>(s, l, t, i, s, 6, t), "a tuple of seven"); access(Tuple<int,int,int,int,int,int,int,int,int>(k, l, m, i, 5, 6, 7, 8, 9), "a tuple of nine");
        begin("assignment of " + str(k) + "," + str(l) + "," + str(m) + "," + s);
        { S a = "x"; Tracked b(1); Tracked o(7); Pr src(s, Tracked(k)); make_lpair(a, b) = src; same(a, s, "first variable"); same(b.v, k, "second variable"); same(o.v, 7, "another object"); same(src.first, s, "source"); make_lpair(a, b) = Pr(t, Tracked(l)); same(a, t, "first variable"); same(b.v, l, "second variable"); }
        { int a = 1, b = 2; make_lpair(a, b) = Pair<int,int>(k, l); same(a, k, "first variable"); same(b, l, "second variable"); int c = 3; auto ref = make_lpair(b, c); ref = Pair<int,int>(m, k); same(a, k, "another variable"); same(b, m, "first variable"); same(c, k, "second variable"); b = 55; same(ref.first, 55, "the pair refers to the variable"); }
        { int a[3] = {1, 2, 3}; int x = rnd(3), y = (x + 1 + rnd(2)) % 3, z = 3 - x - y; make_lpair(a[x], a[y]) = Pair<int,int>(k, l); same(a[x], k, "first variable"); same(a[y], l, "second variable"); same(a[z], z + 1, "another element"); make_ltuple(a[y], a[x]) = Tuple<int,int>(m, k); same(a[y], m, "first variable"); same(a[x], k, "second variable"); same(a[z], z + 1, "another element"); make_ltuple(a[z], a[y], a[x]) = Tuple<int,int,int>(7, 8, 9); same(a[z], 7, "first variable"); same(a[y], 8, "second variable"); same(a[x], 9, "third variable"); }
        { Pair<S,S> p("p", "q"); make_lpair(p.second, p.first) = Pair<S,S>(s, t); same(p.second, s, "first variable"); same(p.first, t, "second variable"); Tuple<S,S,S> w("1", "2", "3"); make_ltuple(get_third(w), get_first(w), get_second(w)) = Tuple<S,S,S>(s, t, "m"); same(get_third(w), s, "first variable"); same(get_first(w), t, "second variable"); same(get_second(w), S("m"), "third variable"); }
        { int a = 1; make_ltuple(a) = Tuple<int>(k); same(a, k, "variable"); }
        { int a = 1; S b; make_ltuple(a, b) = Tuple<int,S>(k, s); same(a, k, "first variable"); same(b, s, "second variable"); }
        { int a = 1; S b; double c = 0; make_ltuple(a, b, c) = Tuple<int,S,double>(k, s, l); same(a, k, "first variable"); same(b, s, "second variable"); same(c, double(l), "third variable"); }
        { int a = 1, b = 1, c = 1, d = 1; make_ltuple(a, b, c, d) = Tuple<int,int,int,int>(k, l, m, i); same(a, k, "first variable"); same(b, l, "second variable"); same(c, m, "third variable"); same(d, i, "fourth variable"); }
        { int a = 1, b = 1, c = 1, d = 1, e = 1; make_ltuple(a, b, c, d, e) = Tuple<int,int,int,int,int>(k, l, m, i, k + l); same(a, k, "first variable"); same(b, l, "second variable"); same(c, m, "third variable"); same(d, i, "fourth variable"); same(e, k + l, "fifth variable"); }
    } }
