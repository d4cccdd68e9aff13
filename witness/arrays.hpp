#define WIT_ALLOC
#include "wit.hpp"
#include "array.hpp"
#include <list>
using namespace wit; using namespace Helper;
// an element type that can be constructed from another with a parameter, and from a double with one
struct Prm { int s; };
struct Elem : Tracked { using Tracked::Tracked; Elem() : Tracked(0) {} Elem(int x) : Tracked(x) {} Elem(Tracked const& t, Prm p) : Tracked(t.v * 10 + p.s) {} Elem(double d, Prm p) : Tracked(int(d) * 10 + p.s) {} };
struct Src { int v; Src(int x = 0) : v(x) {} operator Elem() const { return Elem(v); } };
struct Hard { int v; Hard(int x = 0) : v(x) {} explicit operator Elem() const { return Elem(v); } };
template<class T> int val(T const& t) { if constexpr (requires { t.v; }) return t.v; else return (int)t; }
using M = std::vector<int>;
// the array has exactly the contents of the model; judging values only where asked
template<class A> void holds(A const& a, M const& m, bool values, const char* what) {
    size_t n = values ? m.size() : a.size(); if (values) same(a.size(), m.size(), std::string(what) + ": size");
    auto it = a.begin(); for (size_t i = 0; i < n; ++i, ++it) { int x = val(*it); if (values && x != m[i]) fail(std::string(what) + ": element " + str(i) + " is " + str(x) + ", expected " + str(m[i])); }
    if (values) expect(it == a.end(), std::string(what) + ": end follows the last element"); }
inline M iota(size_t n, int b) { M m; for (size_t i = 0; i < n; ++i) m.push_back(b + (int)i); return m; }
template<class E, size_t... I> E const* raw(M const& m, std::vector<E>& v) { v.clear(); v.reserve(m.size() + 1); for (int x : m) v.push_back(E(x)); return v.data(); }
template<class E> Array<E> arr(M const& m) { std::vector<E> v; E const* p = raw(m, v); return Array<E>(p, p + m.size()); }
// every operation on arrays of na and nb elements (nb also used as a size); form 0: built, 1: moved-from, 2: default
template<class E> Array<E> form(int f, M& m, size_t n, int b) {
    if (f == 0) { m = iota(n, b); return arr<E>(m); }
    m.clear(); if (f == 2) return Array<E>();
    Array<E> x(n, E(7)); Array<E> y(std::move(x)); return x; }
template<class E> void operation(int op, int fa, int fb, size_t na, size_t nb, bool values) {
    M ma, mb; Array<E> a = form<E>(fa, ma, na, 100), b = form<E>(fb, mb, nb, 200); std::vector<E> v;
    auto both = [&](const char* w) { holds(a, ma, values, w); holds(b, mb, values, w); };
    bool eq = ma == mb;
    switch (op) {
    case 0: { Array<E> c(a); holds(c, ma, values, "copy"); both("copy"); if (c.size()) { *c.begin() = E(-1); } both("after a write to a copy"); break; }
    case 1: { Array<E> c(std::move(a)); holds(c, ma, values, "move"); ma.clear(); both("moved from"); break; }
    case 2: { Array<E>& r = (a = b); ma = mb; both("assignment"); if (values) expect(&r == &a, "assignment returns its target"); if (a.size()) *a.begin() = E(-1), ma[0] = -1; both("after a write to the target of an assignment"); break; }
    case 3: { Array<E>& r = (a = std::move(b)); ma = mb; mb.clear(); both("move assignment"); if (values) expect(&r == &a, "assignment returns its target"); break; }
    case 4: { Array<E>& r = a; a = r; both("self assignment"); break; }
    case 5: { Array<E>& r = a; a = std::move(r); both("self move assignment"); break; }
    case 6: a.resize(nb); ma.resize(nb, 0); both("resize"); break;
    case 7: a.resize(nb, E(5)); ma.resize(nb, 5); both("resize with a value"); break;
    case 8: if (ma.size()) { size_t i = ma.size() - 1; int x = ma[i]; a.resize(nb, a[i]); ma.resize(nb, x); both("resize with an own element"); } break;
    case 9: if (ma.size() != nb) ma.assign(nb, 0); a.reallocate(nb); both("reallocation"); break;
    case 10: a.swap(b); std::swap(ma, mb); both("swap"); break;
    case 11: a.swap(a); both("swap with itself"); break;
    case 12: a.fill(E(3)); ma.assign(ma.size(), 3); both("fill"); break;
    case 13: if (ma.size()) { size_t i = ma.size() / 2; int x = ma[i]; a.fill(a[i]); ma.assign(ma.size(), x); both("fill with an own element"); } break;
    case 14: { M m = iota(ma.size() + 1, 300); E const* p = raw(m, v); a.fill(p); m.pop_back(); ma = m; both("fill from a sequence"); break; }
    case 15: { M m = iota(nb, 400); E const* p = raw(m, v); a.assign(p, p + nb); ma = m; both("range assignment"); break; }
    case 16: { std::list<int> l; M m = iota(nb, 500); for (int x : m) l.push_back(x); if constexpr (std::is_same_v<E,int>) { a.assign(l.begin(), l.end()); ma = m; } both("range assignment"); break; }
    case 17: if (values) { same(a == b, eq, "equality"); same(a != b, !eq, "inequality"); } else { (void)(a == b); (void)(a != b); } both("comparison"); break;
    case 18: { Array<E> c(a); if (values) { expect(a == c && !(a != c), "a copy is equal"); if (ma.size()) for (size_t i = 0; i < ma.size(); ++i) { E old(c[i]); c[i] = E(-9); expect(a != c && !(a == c) && !(c == a), "a difference at one position makes arrays unequal"); c[i] = old; } } break; }
    case 19: { Array<E> c(a); c.resize(ma.size() + 1); if (values) expect(!(a == c) && !(c == a) && a != c, "arrays of different length are unequal"); c.resize(ma.size()); if (values) expect(a == c, "resizing back and forth keeps the prefix"); break; }
    case 20: { Array<E> c(nb); holds(c, M(nb, 0), values, "construction from a size"); break; }
    case 21: { Array<E> c(nb, E(6)); holds(c, M(nb, 6), values, "construction from a size and a value"); break; }
    case 22: { Array<E> c(a.begin(), a.begin() + ma.size()); holds(c, ma, values, "construction from a range"); break; }
    case 23: { Array<E> c = na == 0 ? Array<E>(std::initializer_list<E>{}) : na == 1 ? Array<E>{E(1)} : na == 2 ? Array<E>{E(1), E(2)} : Array<E>{E(1), E(2), E(3)};
               holds(c, iota(std::min<size_t>(na, 3), 1), values, "construction from a list"); break; }
    case 24: { Array<E> c(nb, [](size_t i) { return E(int(i) + 40); }); holds(c, iota(nb, 40), values, "generation"); break; }
    }
    if constexpr (std::is_same_v<E,Elem>) switch (op) {
    case 25: { std::vector<Src> s; for (int x : ma) s.push_back(x); Array<Src> q(s.data(), s.data() + s.size()); Array<E> c(q); holds(c, ma, values, "conversion"); Array<E> d; d = Array<E>(q); holds(d, ma, values, "assigned conversion"); break; }
    case 26: { std::vector<Hard> s; for (int x : ma) s.push_back(x); Array<Hard> q(s.data(), s.data() + s.size()); Array<E> c(q); holds(c, ma, values, "explicit conversion"); break; }
    case 27: { std::vector<Tracked> s; for (int x : ma) s.push_back(x); Array<Tracked> q(s.data(), s.data() + s.size()); Array<E> c(q, Prm{4}); M m; for (int x : ma) m.push_back(10 * x + 4); holds(c, m, values, "conversion with a parameter"); break; }
    case 28: { Array<E> c({1.0, 2.0, 3.0}, Prm{7}); holds(c, M{17, 27, 37}, values, "construction from a list with a parameter"); break; }
    }
}
inline const char* const names[] = {"copy","move","a=b","a=move(b)","a=a","a=move(a)","a.resize(nb)","a.resize(nb,x)","a.resize(nb,a[last])","a.reallocate(nb)","a.swap(b)","a.swap(a)","a.fill(x)","a.fill(a[mid])","a.fill(first)","a.assign(range of nb)","a.assign(list of nb)","a==b","a==copy","a==longer","Array(nb)","Array(nb,x)","Array(first,last)","Array{list}","Array(nb,g)","conversion","explicit conversion","conversion with parameter","list with parameter"};
template<class E> void all(const char* ty, bool values, bool inject) {
    size_t N[] = {0, 1, 2, 3, 7};
    for (int op = 0; op < 29; ++op) for (int fa = 0; fa < 3; ++fa) for (int fb = 0; fb < 3; ++fb) for (size_t na : N) for (size_t nb : N) {
        if ((fa == 2 && na) || (fb == 2 && nb && op < 4)) continue;
        begin(std::string(ty) + " " + names[op] + " with a of " + str(na) + (fa == 1 ? " (moved from)" : fa == 2 ? " (default)" : "") + ", b of " + str(nb) + (fb == 1 ? " (moved from)" : fb == 2 ? " (default)" : ""), na + nb > 0);
        if (!values) { noleak([&] { operation<E>(op, fa, fb, na, nb, values); }, inject); same(Tracked::live.size(), size_t(0), "elements left over"); }
        else operation<E>(op, fa, fb, na, nb, values); }
    // longer histories
    for (int r = 0; r < (thorough ? 3000 : 300); ++r) {
        begin(std::string(ty) + " history");
        { Array<E> a[3]; M m[3];
          for (int s = 0; s < 25; ++s) { size_t i = rnd(3), j = rnd(3), n = rnd(9); int x = (int)rnd(50), op = (int)rnd(9); step(str(op) + "(" + str(i) + "," + str(j) + "," + str(n) + ")");
            switch (op) {
            case 0: a[i] = a[j]; m[i] = m[j]; break;
            case 1: if (i != j) { a[i] = std::move(a[j]); m[i] = m[j]; m[j].clear(); } break;
            case 2: a[i].resize(n); m[i].resize(n, 0); break;
            case 3: a[i].resize(n, E(x)); m[i].resize(n, x); break;
            case 4: a[i].reallocate(n); if (m[i].size() != n) m[i].assign(n, 0); break;
            case 5: a[i].swap(a[j]); std::swap(m[i], m[j]); break;
            case 6: a[i].fill(E(x)); m[i].assign(m[i].size(), x); break;
            case 7: if (m[i].size()) { size_t k = rnd(m[i].size()); a[i][k] = E(x); m[i][k] = x; } break;
            case 8: { a[i].assign(a[j].begin(), a[j].begin() + (i == j ? 0 : m[j].size())); if (i != j) m[i] = m[j]; else m[i].clear(); break; }
            }
            for (int k = 0; k < 3; ++k) holds(a[k], m[k], values, "history"); if (values) expect((a[0] == a[1]) == (m[0] == m[1]), "equality in a history"); } }
        same(Tracked::live.size(), size_t(0), "elements left over"); } }
