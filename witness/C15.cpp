#include "wit.hpp"
#include "container.hpp"
using namespace wit; using namespace Helper;
typedef std::vector<std::string> Texts;
struct El { std::string t; El() {} El(std::string s) : t(s) {} friend bool operator<(El const& a, El const& b) { return a.t < b.t; } friend bool operator==(El const& a, El const& b) { return a.t == b.t; } El const& index() const { return *this; } El const& coefficient() const { return *this; } };
std::ostream& operator<<(std::ostream& os, El const& e) { return os << e.t; }
struct Term { El i, c; El const& index() const { return i; } El const& coefficient() const { return c; } };
static std::string joined(Texts const& x, std::string op, std::string cl, std::string sep) { std::string r = op; for (size_t i = 0; i < x.size(); ++i) { if (i) r += sep; r += x[i]; } return r + cl; }
static std::string ch(char c) { return std::string(1, c); }
template<class T> static std::string shown(T const& t) { std::ostringstream os; auto& r = (os << t); expect(&r == &os, "returns the stream"); return os.str(); }
template<class F> static std::string by(F f) { std::ostringstream os; auto& r = f(os); expect(&r == &os, "returns the stream"); return os.str(); }
template<class C> static void lists(std::vector<C> const& e, Texts const& t) {
    std::string want = joined(t, "[", "]", ",");
    { Array<C> a(e.begin(), e.end()); same(shown(a), want, "Array"); expect(a.size() == e.size() && std::equal(e.begin(), e.end(), a.begin()), "Array unchanged"); Array<C> const& b = a; same(shown(b), want, "Array"); }
    { SharedArray<C> a(e.size()); std::copy(e.begin(), e.end(), a.begin()); SharedArray<C> b = a; same(shown(b), want, "SharedArray"); expect(std::equal(e.begin(), e.end(), b.begin()), "SharedArray unchanged"); }
    { std::vector<C> v = e; std::ostringstream os; Helper::operator<<(os, v); same(os.str(), want, "vector"); expect(v == e, "vector unchanged"); }
    { List<C> v(e); same(shown(v), want, "List"); expect(v == List<C>(e), "List unchanged"); }
    { LinkedList<C> v; for (auto const& x : e) v.append(x); same(shown(v), want, "LinkedList"); std::list<C> l(v); std::ostringstream os; Helper::operator<<(os, l); same(os.str(), want, "list"); expect(l == v, "list unchanged"); } }
static void all(Texts const& t, Texts const& u) {
    cur = "elements " + vec(t).substr(0, 300); begin(cur); std::vector<El> e(t.begin(), t.end()), f(u.begin(), u.end()); f.resize(e.size()); lists(e, t);
    std::set<El> s(e.begin(), e.end()); Texts st; for (auto& x : s) st.push_back(x.t); Set<El> S(s.begin(), s.end()); same(shown(S), joined(st, "{", "}", ","), "Set"); expect(S == Set<El>(s.begin(), s.end()), "Set unchanged"); { std::ostringstream os; Helper::operator<<(os, s); same(os.str(), joined(st, "{", "}", ","), "set"); }
    Map<El,El> m; for (size_t i = 0; i < e.size(); ++i) m.insert(e[i], f[i]); Texts mt; for (auto& x : m) mt.push_back(x.first.t + ":" + x.second.t);
    std::string mw = mt.empty() ? "{ }" : joined(mt, "{ ", " }", ", "); same(shown(m), mw, "Map"); { std::map<El,El> w(m.begin(), m.end()); std::ostringstream os; Helper::operator<<(os, w); same(os.str(), mw, "map"); }
    static const char cs[] = "[]{}(),;:|<> \t\n01\xff\x80\0x"; auto c = [&] { return cs[rnd(sizeof cs)]; };
    for (int k = 0; k < 3; ++k) { char o = k ? c() : '[', cl = k ? c() : ']', se = k ? c() : ',', d = k ? c() : ':'; std::string cc = "characters " + str(int(o)) + " " + str(int(cl)) + " " + str(int(se)) + " " + str(int(d)) + "; elements " + vec(t).substr(0, 300); cur = cc;
        std::string want = joined(t, ch(o), ch(cl), ch(se)); std::list<El> li(e.begin(), e.end()); std::vector<El const*> pt; for (auto& x : e) pt.push_back(&x);
        same(by([&](std::ostream& os) -> std::ostream& { return write_sequence(os, e.begin(), e.end(), o, cl, se); }), want, "write_sequence of a vector"); same(by([&](std::ostream& os) -> std::ostream& { return write_sequence(os, li.begin(), li.end(), o, cl, se); }), want, "write_sequence of a list"); same(by([&](std::ostream& os) -> std::ostream& { return write_sequence(os, e.data(), e.data() + e.size(), o, cl, se); }), want, "write_sequence of an array");
        same(by([&](std::ostream& os) -> std::ostream& { return write_sequence(os, s.begin(), s.end(), o, cl, se); }), joined(st, ch(o), ch(cl), ch(se)), "write_sequence of a set"); same(by([&](std::ostream& os) -> std::ostream& { return write_pointer_sequence(os, pt.begin(), pt.end(), o, cl, se); }), want, "write_pointer_sequence");
        Texts kd, kp, cd; std::map<El,std::shared_ptr<El>> mp; for (auto& x : m) { kd.push_back(x.first.t + ch(d) + x.second.t); mp[x.first] = std::make_shared<El>(x.second); }
        std::vector<Term> ts; for (size_t i = 0; i < e.size(); ++i) { ts.push_back({e[i], f[i]}); cd.push_back(e[i].t + ch(d) + f[i].t); }
        same(by([&](std::ostream& os) -> std::ostream& { return write_map_sequence(os, m.begin(), m.end(), o, cl, se, d); }), joined(kd, ch(o), ch(cl), ch(se)), "write_map_sequence"); same(by([&](std::ostream& os) -> std::ostream& { return write_map_pointer_sequence(os, mp.begin(), mp.end(), o, cl, se, d); }), joined(kd, ch(o), ch(cl), ch(se)), "write_map_pointer_sequence"); same(by([&](std::ostream& os) -> std::ostream& { return write_coefficient_map_sequence(os, ts.begin(), ts.end(), o, cl, se, d); }), joined(cd, ch(o), ch(cl), ch(se)), "write_coefficient_map_sequence");
        if (k == 0) { same(by([&](std::ostream& os) -> std::ostream& { return write_sequence(os, e.begin(), e.end()); }), joined(t, "[", "]", ","), "write_sequence"); same(by([&](std::ostream& os) -> std::ostream& { return write_pointer_sequence(os, pt.begin(), pt.end()); }), joined(t, "[", "]", ","), "write_pointer_sequence"); same(by([&](std::ostream& os) -> std::ostream& { return write_map_sequence(os, m.begin(), m.end()); }), joined(kd, "{", "}", ","), "write_map_sequence"); same(by([&](std::ostream& os) -> std::ostream& { return write_map_pointer_sequence(os, mp.begin(), mp.end()); }), joined(kd, "{", "}", ","), "write_map_pointer_sequence"); same(by([&](std::ostream& os) -> std::ostream& { return write_coefficient_map_sequence(os, ts.begin(), ts.end()); }), joined(cd, "{", "}", ","), "write_coefficient_map_sequence"); } }
    auto at = [&](size_t i) { return i < e.size() ? e[i] : El(str(i)); }; El a = at(0), b = at(1), g = at(2); cur = "components " + a.t + " | " + b.t + " | " + g.t;
    same(shown(std::make_pair(a, b)), "(" + a.t + "," + b.t + ")", "pair"); same(shown(std::make_tuple(a)), "(" + a.t + ")", "tuple of 1"); same(shown(std::make_tuple(a, b)), "(" + a.t + "," + b.t + ")", "tuple of 2"); same(shown(std::make_tuple(a, 7, b)), "(" + a.t + ",7," + b.t + ")", "tuple of 3"); same(shown(std::make_tuple(a, b, g, b)), "(" + a.t + "," + b.t + "," + g.t + "," + b.t + ")", "tuple of 4"); same(shown(std::make_tuple(1, a, b, 'c', g, 2u, b)), "(1," + a.t + "," + b.t + ",c," + g.t + ",2," + b.t + ")", "tuple of 7"); }
template<class T, class G> static void plain(size_t n, G gen) { std::vector<T> v; Texts t; for (size_t i = 0; i < n; ++i) { T x = gen(); v.push_back(x); std::ostringstream os; os << x; t.push_back(os.str()); } begin("plain elements " + joined(t, "", "", " ").substr(0, 300)); lists<T>(v, t); }
void wit::run() {
    const char* words[] = {"", "a", "b", ",", "]", "[", "{ ", " }", ":", "0", "x,y", "\n"}; auto w = [&] { return std::string(words[rnd(12)]); };
    all({}, {}); for (auto a : words) { all({a}, {"v"}); for (auto b : words) all({a, b}, {"", "v"}); }
    for (int k = 0; k < (thorough ? 20000 : 1500); ++k) { Texts t(rnd(9)), u(t.size()); for (auto& x : t) x = w(); for (auto& x : u) x = w(); all(t, u); }
    for (size_t n : {9, 10, 11, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}) { if (n > 5000 && !thorough && n != 65537) continue; Texts t(n), u(n); for (auto& x : t) x = str(rnd(100000)); for (auto& x : u) x = w(); all(t, u); }
    for (size_t n = 0; n < 40; ++n) { plain<int>(n, [] { return int(rnd(2000)) - 1000; }); plain<double>(n, [] { return double(long(rnd(2000)) - 1000) / 8; }); plain<char>(n, [] { return char('a' + rnd(26)); }); plain<std::string>(n, w); plain<unsigned long>(n, [] { return (unsigned long)rng(); });
        { std::vector<bool> v; Texts t; for (size_t i = 0; i < n; ++i) { v.push_back(rnd(2)); t.push_back(v[i] ? "1" : "0"); } begin("bits " + joined(t, "", "", "")); std::ostringstream os; Helper::operator<<(os, v); same(os.str(), joined(t, "[", "]", ","), "vector of bool"); List<bool> l(v); same(shown(l), joined(t, "[", "]", ","), "List of bool"); } }
    { begin("nested containers"); Array<List<int>> a{List<int>{1, 2}, List<int>{}, List<int>{3}}; same(shown(a), std::string("[[1,2],[],[3]]"), "Array of List"); Map<int,List<int>> m; m[2] = List<int>{4}; m[1] = List<int>{}; same(shown(m), std::string("{ 1:[], 2:[4] }"), "Map of List"); same(shown(std::make_pair(List<int>{1}, Set<int>{3, 2})), std::string("([1],{2,3})"), "pair of containers"); same(shown(std::make_tuple(List<int>{1}, std::make_pair(1, 2))), std::string("([1],(1,2))"), "tuple of containers"); }
    for (int k = 0; k < 4; ++k) { begin("stream format " + str(k)); std::ostringstream os, ws; for (auto* s : {&os, &ws}) { if (k & 1) *s << std::hex << std::showbase << std::boolalpha; if (k & 2) s->precision(3); } Array<int> a{10, 255}; std::vector<double> d{1.23456, 2}; os << a; Helper::operator<<(os, d); ws << '[' << 10 << ',' << 255 << "][" << 1.23456 << ',' << 2.0 << ']'; same(os.str(), ws.str(), "elements are written in the format of the stream"); expect(os.flags() == ws.flags(), "stream format unchanged"); } }
