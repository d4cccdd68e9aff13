#define WIT_ALLOC
#include "wit.hpp"
#include "container.hpp"
using namespace wit; using namespace Helper;
typedef std::vector<int> M;
template<class T> struct Of { static T mk(int x) { return T(x); } static int val(T const& t) { if constexpr (requires { t.v; }) return t.v; else if constexpr (std::is_same_v<T,std::string>) return std::stoi(t); else return int(t); } };
template<> struct Of<std::string> { static std::string mk(int x) { return std::to_string(x); } static int val(std::string const& t) { return std::stoi(t); } };
template<class C> static M vals(C const& c) { M r; for (auto const& x : c) r.push_back(Of<std::decay_t<decltype(x)>>::val(x)); return r; }
template<class C> static void is(C const& c, M const& m, std::string const& what) { M v = vals(c); if (v != m) fail(what + ": got " + vec(v) + ", expected " + vec(m)); same(size_t(c.size()), m.size(), what + ": size"); }
static M cat(M a, M const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
template<class T> static List<T> list(M const& m) { List<T> l; for (int x : m) l.push_back(Of<T>::mk(x)); return l; }
template<class T> static LinkedList<T> linked(M const& m) { LinkedList<T> l; for (int x : m) l.push_back(Of<T>::mk(x)); return l; }
template<class T> static Array<T> array(M const& m) { List<T> l = list<T>(m); return Array<T>(l.begin(), l.end()); }
template<class T> static void all(const char* tn, M const& a, M const& b) {
    begin(std::string(tn) + " " + vec(a).substr(0, 200) + " " + vec(b).substr(0, 200)); int x = b.size() ? b[0] : 1; T t = Of<T>::mk(x);
    { List<T> l = list<T>(a); l.append(t); is(l, cat(a, {x}), "append a value"); if (a.size()) { for (int k = 0; k < 6; ++k) { size_t i = rnd(a.size()); M m = vals(l); if constexpr (!std::is_same_v<T,bool>) { l.append(l[i]); is(l, cat(m, {m[i]}), "append an own element"); } } } }
    { List<T> l = list<T>(a), m = list<T>(b); l.append(m); is(l, cat(a, b), "append a list"); is(m, b, "appended list"); std::vector<T> v = list<T>(b); l.append(v); is(l, cat(cat(a, b), b), "append a vector"); l.concatenate(m); is(l, cat(cat(cat(a, b), b), b), "concatenate"); is(m, b, "concatenated list"); is(v, b, "appended vector"); }
    for (int how = 0; how < 4; ++how) { List<T> l = list<T>(a); if (how & 2) l.reserve(2 * a.size() + 3); if (how & 1) l.append(static_cast<std::vector<T> const&>(l)); else l.concatenate(l); is(l, cat(a, a), "append to itself"); }
    { LinkedList<T> l = linked<T>(a), m = linked<T>(b); l.append(t); is(l, cat(a, {x}), "linked append a value"); l.append(l.front()); is(l, cat(a, {x, a.size() ? a[0] : x}), "linked append an own element"); l = linked<T>(a); l.append(m); is(l, cat(a, b), "linked append"); is(m, b, "appended linked list"); l.concatenate(m); is(l, cat(cat(a, b), b), "linked concatenate"); }
    for (int how = 0; how < 2; ++how) { LinkedList<T> l = linked<T>(a); if (how) l.append(l); else l.concatenate(l); is(l, cat(a, a), "linked append to itself"); }
    { List<T> const l = list<T>(a), m = list<T>(b); is(catenate(l, m), cat(a, b), "catenate"); is(catenate(l, l), cat(a, a), "catenate one list twice"); is(catenate(l, t), cat(a, {x}), "catenate a value"); is(l, a, "first argument of catenate"); is(m, b, "second argument of catenate"); is(catenate(catenate(l, m), l), cat(cat(a, b), a), "catenate twice"); }
    { List<T> const l = list<T>(a); int calls = 0; auto f = [&](T const& y) { ++calls; return 3L * Of<T>::val(y) + 1; }; M w; for (int y : a) w.push_back(3 * y + 1); is(apply(f, l), w, "apply"); same(calls, int(a.size()), "calls of the function"); is(elementwise(f, l), w, "elementwise"); is(l, a, "argument of apply"); M n = b; n.resize(a.size(), 2); List<int> o = list<int>(n); auto g = [](T const& y, int z) { return std::to_string(Of<T>::val(y) - 2 * z); }; M u; for (size_t i = 0; i < a.size(); ++i) u.push_back(a[i] - 2 * n[i]); is(elementwise(g, l, o), u, "elementwise of two lists"); is(l, a, "argument of elementwise"); is(o, n, "argument of elementwise"); }
    { List<T> const l = list<T>(a); std::vector<T> v = l; is(List<T>(v), a, "list from a vector"); is(make_list(v), a, "make_list of a vector"); is(make_list(l), a, "make_list of a list"); if constexpr (!std::is_same_v<T,bool>) { is(make_array(v), a, "make_array of a vector"); is(make_array(l), a, "make_array of a list"); Array<T> r = array<T>(a); is(make_array(r), a, "make_array of an array"); is(make_list(r), a, "make_list of an array"); is(r, a, "converted array"); is(make_array(t), {x}, "make_array of a value"); }
      is(make_list(t), {x}, "make_list of a value"); if constexpr (!std::is_same_v<T,size_t>) is(List<T>(t), {x}, "list of a value"); is(l, a, "converted list"); LinkedList<T> k(l); is(k, a, "linked list from a list"); LinkedList<T> k2(k); is(k2, a, "linked list from a linked list"); is(LinkedList<T>(static_cast<std::list<T> const&>(k)), a, "linked list from a std list"); is(LinkedList<T>(l.begin(), l.end()), a, "linked list from a range"); is(LinkedList<T>(k.begin(), k.end()), a, "linked list from a range"); is(k, a, "converted linked list"); is(List<T>(k.begin(), k.end()), a, "list from a linked list");
      is(LinkedList<T>(unsigned(a.size()), t), M(a.size(), x), "linked list of equal elements"); same(LinkedList<T>(unsigned(a.size())).size(), a.size(), "linked list of a size"); } }
struct OnlyExplicit { int v; explicit OnlyExplicit(int x) : v(x) { } };
static void convert(M const& a) {
    begin("conversions of " + vec(a).substr(0, 300)); List<int> l = list<int>(a); is(List<long>(l), a, "list of long from a list of int"); { std::vector<int> v(a.begin(), a.end()); List<OnlyExplicit> x(v); same(x.size(), a.size(), "explicit conversion"); for (size_t i = 0; i < a.size(); ++i) same(x[i].v, a[i], "explicitly converted element"); } is(List<double>(l), a, "list of double from a list of int"); is(LinkedList<double>(l), a, "linked list of double from a list of int"); is(LinkedList<long>(linked<int>(a)), a, "linked list of long from a linked list of int"); is(List<Tracked>(l), a, "list of objects from a list of int");
    std::set<int> u(a.begin(), a.end()); M s(u.begin(), u.end()); Set<int> set(u.begin(), u.end()); is(make_list(set), s, "make_list of a set"); is(static_cast<List<int>>(set), s, "list from a set"); is(l, a, "converted list"); is(set, s, "converted set"); }
static void both(M const& a, M const& b) { all<int>("int", a, b); all<std::string>("string", a, b); { noleak([&] { all<Tracked>("objects", a, b); }, false); } M p, q; for (int x : a) p.push_back(x & 1); for (int x : b) q.push_back(x & 1); all<bool>("bool", p, q); M ua, ub; for (int x : a) ua.push_back(std::abs(x)); for (int x : b) ub.push_back(std::abs(x)); all<unsigned>("unsigned", ua, ub); all<size_t>("size_t", ua, ub); all<double>("double", a, b); convert(a); }
void wit::run() {
    M m[] = {{}, {0}, {1}, {1, 1}, {2, 1}, {1, 2, 3}, {3, 3, 1, 2}}; for (auto& a : m) for (auto& b : m) both(a, b);
    for (int k = 0; k < (thorough ? 3000 : 150); ++k) { M a(rnd(k % 10 ? 12 : 200)), b(rnd(k % 7 ? 12 : 200)); for (auto& x : a) x = int(rnd(50)) - 20; for (auto& x : b) x = int(rnd(50)) - 20; both(a, b); }
    for (size_t n : {16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 65536, 70000}) { if (n > 2000 && !thorough && n != 70000) continue; M a(n); for (auto& x : a) x = int(rnd(100)); if (n < 2000) both(a, {1, 2}); else all<int>("int", a, {1, 2}); } }
