#define WIT_ALLOC
#include "wit.hpp"
#include "container.hpp"
using namespace wit; using namespace Helper;
typedef std::vector<int> M;
template<class T> struct Of { static T mk(int x) { return T(x); } static int val(T const& t) { if constexpr (requires { t.v; }) return t.v; else return int(t); } };
template<> struct Of<std::string> { static std::string mk(int x) { return std::to_string(x + 500); } static int val(std::string const& t) { return std::stoi(t) - 500; } };
typedef std::vector<bool> U;      // membership of -R..R-1, the reference representation
static const int R = 40;
static U of(M const& m) { U u(2 * R); for (int x : m) u[x + R] = true; return u; }
static M els(U const& u) { M m; for (int i = 0; i < 2 * R; ++i) if (u[i]) m.push_back(i - R); return m; }
template<class F> static U pw(U const& a, U const& b, F f) { U r(2 * R); for (int i = 0; i < 2 * R; ++i) r[i] = f(a[i], b[i]); return r; }
template<class C> static M vals(C const& c) { M r; for (auto const& x : c) r.push_back(Of<std::decay_t<decltype(x)>>::val(x)); return r; }
template<class C> static void is(C const& c, U const& u, const char* what) { M v = vals(c), m = els(u); std::sort(v.begin(), v.end()); if (v != m) fail(std::string(what) + ": got " + vec(v) + ", expected " + vec(m)); same(size_t(c.size()), m.size(), what); }
template<class T> static Set<T> set(U const& u) { Set<T> s; for (int x : els(u)) s.insert(Of<T>::mk(x)); return s; }
template<class T> static std::vector<T> vect(M const& m) { std::vector<T> s; for (int x : m) s.push_back(Of<T>::mk(x)); return s; }
template<class T> static void tests(U const& a, U const& b, Set<T> const& A, std::set<T> const& B) {
    bool in = true, ni = true, dis = true; for (int i = 0; i < 2 * R; ++i) { if (b[i] && !a[i]) in = false; if (a[i] && !b[i]) ni = false; if (a[i] && b[i]) dis = false; }
    same(A.subset(B), in, "subset (member)"); same(subset(static_cast<std::set<T> const&>(A), B), ni, "subset"); same(subset(B, static_cast<std::set<T> const&>(A)), in, "subset, exchanged"); same(A.disjoint(B), dis, "disjoint (member)"); same(disjoint(static_cast<std::set<T> const&>(A), B), dis, "disjoint"); same(disjoint(B, static_cast<std::set<T> const&>(A)), dis, "disjoint, exchanged"); is(A, a, "the set is unchanged"); is(B, b, "the other set is unchanged"); }
template<class T> static void all(const char* tn, M const& x, M const& y) {
    begin(std::string(tn) + " " + vec(x).substr(0, 300) + " " + vec(y).substr(0, 300)); U a = of(x), b = of(y), z(2 * R); typedef std::set<T> B;
    auto minus = [](bool p, bool q) { return p && !q; }; auto both = [](bool p, bool q) { return p && q; }; auto either = [](bool p, bool q) { return p || q; };
    Set<T> const A = set<T>(a), Bs = set<T>(b); std::vector<T> const L = vect<T>(y), LA = vect<T>(x); B const& Ab = A; B const& Bb = Bs;
    tests<T>(a, b, A, Bb); tests<T>(a, a, A, Ab);
    { bool dis = els(pw(a, b, both)).empty(); same(A.disjoint(L), dis, "disjoint from a list (member)"); same(disjoint(Ab, L), dis, "disjoint from a list"); same(A.disjoint(LA), x.empty(), "disjoint from a list of its own elements"); same(disjoint(Ab, LA), x.empty(), "disjoint from a list of its own elements"); }
    for (int i = -5; i < 6; ++i) { T t = Of<T>::mk(i); same(A.contains(t), bool(a[i + R]), "contains (member)"); same(contains(Ab, t), bool(a[i + R]), "contains"); Set<T> s = A; Set<T>& r = s.remove(t); U w = a; w[i + R] = false; is(s, w, "remove a value"); expect(&r == &s, "remove returns the set"); }
    for (int i = 0; i < 3 && x.size(); ++i) { Set<T> s = A; auto it = s.begin(); std::advance(it, i == 0 ? 0 : i == 1 ? s.size() - 1 : rnd(s.size())); int v = Of<T>::val(*it); U w = a; w[v + R] = false; s.remove(*it); is(s, w, "remove an own element"); }
#define CH(op, arg, want, what) { Set<T> s = A; auto& r = op; expect(&r == &s, what " returns the set"); is(s, want, what); }
    CH(s.adjoin(Bb), Bb, pw(a, b, either), "adjoin") CH(s.remove(Bb), Bb, pw(a, b, minus), "remove a set") CH(s.restrict(Bb), Bb, pw(a, b, both), "restrict") CH(s.remove(L), L, pw(a, b, minus), "remove a list") CH(s.remove(LA), LA, z, "remove a list of all elements")
    CH(s.adjoin(s), s, a, "adjoin the set itself") CH(s.remove(static_cast<B const&>(s)), s, z, "remove the set itself") CH(s.restrict(s), s, a, "restrict to the set itself")
    { B s = A; B& r = remove(s, Bb); expect(&r == &s, "remove returns the set"); is(s, pw(a, b, minus), "remove (function)"); s = A; B& q = restrict(s, Bb); expect(&q == &s, "restrict returns the set"); is(s, pw(a, b, both), "restrict (function)"); s = A; remove(s, s); is(s, z, "remove (function) of the set itself"); s = A; restrict(s, s); is(s, a, "restrict (function) to the set itself"); }
    is(join(A, Bs), pw(a, b, either), "join"); is(join(A, A), a, "join with itself"); is(intersection(Ab, Bb), pw(a, b, both), "intersection"); is(intersection(Ab, Ab), a, "intersection with itself"); is(intersection(Ab, L), pw(a, b, both), "intersection with a list"); is(intersection(Ab, LA), a, "intersection with a list of all elements"); is(difference(Ab, Bb), pw(a, b, minus), "difference"); is(difference(Ab, Ab), z, "difference with itself");
    { Set<T> s = A; s = join(s, Bs); is(s, pw(a, b, either), "set replaced by a join of itself"); s = A; s = difference(static_cast<B const&>(s), Bb); is(s, pw(a, b, minus), "set replaced by a difference of itself"); }
    { U w(2 * R); for (int v : x) w[v * v % R + R] = true; int calls = 0; Set<T> r = apply([&](T const& t) { ++calls; int v = Of<T>::val(t); return Of<T>::mk(v * v % R); }, A); is(r, w, "apply"); same(calls, int(A.size()), "calls of the function"); Set<int> k = apply([](T const& t) { return Of<T>::val(t) / 3; }, A); U w3(2 * R); for (int v : x) w3[v / 3 + R] = true; is(k, w3, "apply to another type"); }
    is(make_set(L), b, "make_set"); is(Set<T>(L), b, "set from a list"); is(make_set(List<T>(L)), b, "make_set of a list"); is(Set<T>(Bb), b, "set from a set"); { Set<T> c(Bs); is(c, b, "copy"); }
    { List<T> l = make_list(A), k = static_cast<List<T>>(A); M m = els(a); M order; for (auto& t : A) order.push_back(Of<T>::val(t)); if (vals(l) != order) fail("make_list: got " + vec(vals(l))); if (vals(k) != order) fail("list of a set: got " + vec(vals(k))); same(order.size(), m.size(), "list size"); is(make_set(l), a, "set to list and back"); }
    is(A, a, "the first operand is unchanged"); is(Bs, b, "the second operand is unchanged"); if (vals(L) != y) fail("the list is changed"); }
struct Down { int v; bool operator<(Down const& o) const { return v > o.v; } Down(int x) : v(x) { } };     // ordered downwards
struct Big { long v; explicit Big(int x) : v(x) { } bool operator<(Big const& o) const { return v < o.v; } };
static void convert(M const& x) {
    begin("conversions of " + vec(x).substr(0, 300)); U a = of(x); Set<int> const s = set<int>(a); std::vector<int> const v = x; auto chk = [&](auto const& c, const char* what) { is(c, a, what); };
    chk(Set<long>(s), "set of long from a set of int"); chk(Set<double>(s), "set of double from a set of int"); chk(Set<long>(v), "set of long from a list of int"); chk(Set<Big>(s), "set explicitly converted"); chk(Set<Down>(s), "set with another order"); chk(Set<Down>(v), "set with another order from a list");
    { Set<double> d; for (int y : x) { d.insert(y + 0.25); d.insert(y + 0.5); } auto fl = [](double z) { return int(z); }; U w(2 * R); for (double z : d) w[fl(z) + R] = true; is(Set<int>(d), w, "set of int from a set of double"); }
    { Set<long> l; for (int y : x) l.insert(y); is(l.remove(v), U(2 * R), "remove a list of another type"); } chk(s, "the set is unchanged"); }
static void pair_(M const& a, M const& b) { all<int>("int", a, b); all<std::string>("string", a, b); all<Down>("downward", a, b); noleak([&] { all<Tracked>("objects", a, b); }, false); }
void wit::run() {
    begin("initialiser lists"); is(Set<int>{3, 1, 2, 3}, of({1, 2, 3}), "initialiser list"); is(Set<int>{}, of({}), "empty initialiser list"); { InitializerList<int> l = {2, 1, 2}; is(Set<long>(l), of({1, 2}), "initialiser list of another type"); is(Set<int>(l), of({1, 2}), "initialiser list"); }
    std::vector<M> m; for (int k = 0; k < 16; ++k) { M s; for (int i = 0; i < 4; ++i) if (k >> i & 1) s.push_back(i); m.push_back(s); } for (auto& a : m) for (auto& b : m) pair_(a, b); for (auto& a : m) convert(a);
    for (int k = 0; k < (thorough ? 3000 : 120); ++k) { M a(rnd(k % 4 ? 12 : 60)), b(rnd(k % 3 ? 12 : 60)); int r = k % 2 ? 10 : 2 * R; for (auto& x : a) x = int(rnd(r)) - r / 2; for (auto& x : b) x = int(rnd(r)) - r / 2; if (k % 5 == 0) b = a; if (k % 5 == 1) { for (int x : a) b.push_back(x); } pair_(a, b); convert(a); } }
