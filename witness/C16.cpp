#include "wit.hpp"
#include "stlio.hpp"
#include <list>
#include <climits>
using namespace wit; using namespace Helper;
struct Digit { int v = -1; Digit() { } Digit(int x) : v(x) { } bool operator==(Digit const& o) const { return v == o.v; } friend std::istream& operator>>(std::istream& is, Digit& d) { char c; if (is >> c) { if (c >= '0' && c <= '9') d.v = c - '0'; else is.setstate(std::ios::failbit); } return is; } friend std::ostream& operator<<(std::ostream& os, Digit const& d) { return os << d.v; } };
struct Oracle { std::string const& t; size_t i = 0;
    void ws() { while (i < t.size() && std::isspace((unsigned char)t[i])) ++i; }
    bool eat(char c) { ws(); if (i < t.size() && t[i] == c) { ++i; return true; } return false; }
    bool elem(int& v, int*) { ws(); size_t b = i; bool neg = false; if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-'; size_t d = i; long long x = 0; while (i < t.size() && t[i] >= '0' && t[i] <= '9') { if (x < (1ll << 40)) x = x * 10 + (t[i] - '0'); ++i; } (void)b; if (d == i) return false; if (neg) x = -x; if (x > INT_MAX || x < INT_MIN) return false; v = int(x); return true; }
    bool elem(Digit& v, Digit*) { ws(); if (i < t.size() && t[i] >= '0' && t[i] <= '9') { v.v = t[i++] - '0'; return true; } return false; }
    bool elem(bool& v, bool*) { int x; if (!elem(x, (int*)nullptr) || (x != 0 && x != 1)) return false; v = x; return true; }
    template<class T> bool list(std::vector<T>& r, char o, char c, char s) { r.clear(); if (!eat(o)) return false; if (eat(c)) return true; for (;;) { T v{}; if (!elem(v, (T*)nullptr)) return false; r.push_back(v); if (eat(c)) return true; if (!eat(s)) return false; } } };
static std::string rest(std::istream& is) { is.clear(); std::string s; char c; while (is.get(c)) s += c; return s; }
template<class T, class C> void reading(std::string const& t, char o, char c, char s, bool plainop) {
    begin("reading '" + t + "' with delimiters " + o + s + c, true); Oracle q{t}; std::vector<T> want; bool ok = q.list(want, o, c, s); std::istringstream is(t); C v{T{}, T{}};
    bool got = true; try { if constexpr (std::is_same_v<C, std::vector<T>>) { if (plainop) { using std::operator>>; is >> v; } else read_sequence(is, v, o, c, s); } else read_sequence(is, v, o, c, s); } catch (std::ios_base::failure const&) { got = false; }
    same(got, ok, ok ? "a well-formed list is read" : "an input failure is raised"); if (ok) { expect(std::vector<T>(v.begin(), v.end()) == want, "elements read, size " + str(v.size()) + " expected " + str(want.size())); same(rest(is), t.substr(q.i), "input left"); } }
template<class T> void all(std::string const& t, bool lists = true) { reading<T, std::vector<T>>(t, '[', ']', ',', true); if (lists) { reading<T, std::vector<T>>(t, '[', ']', ',', false); reading<T, std::list<T>>(t, '[', ']', ',', false); } }
void wit::run() {
    const std::string al = "[],12 -x\xe9"; std::vector<std::string> ts{""}; for (size_t i = 0; i < ts.size(); ++i) if (ts[i].size() < 5) for (char c : al) ts.push_back(ts[i] + c);
    for (auto& t : ts) { all<int>(t, false); if (t.size() < 5) { all<Digit>(t); all<bool>(t, false); } }
    std::string inner = ",]1 "; std::vector<std::string> us{""}; for (size_t i = 0; i < us.size(); ++i) if (us[i].size() < (thorough ? 8u : 6u)) for (char c : inner) us.push_back(us[i] + c); for (auto& u : us) { all<int>("[" + u, false); all<Digit>("[1" + u, false); }
    for (auto& u : us) if (u.size() < 6) { std::string t; for (char c : u) t += c == ',' ? ';' : c == ']' ? '>' : c; reading<int, std::vector<int>>("<" + t, '<', '>', ';', false); reading<Digit, std::list<Digit>>("<" + t, '<', '>', ';', false); t.clear(); for (char c : u) t += c == ' ' ? ';' : c == ']' ? '>' : c; reading<int, std::vector<int>>("<" + t, '<', '>', ';', false); reading<int, std::vector<int>>("<1" + t, '<', '>', ';', false); reading<Digit, std::list<Digit>>("[1" + t, '[', '>', ':', false); t.clear(); for (char c : u) t += c == ' ' ? '>' : c; reading<int, std::vector<int>>("<1" + t, '<', '>', ',', false); reading<int, std::vector<int>>("[1" + t, '[', '>', ',', false); t.clear(); for (char c : u) t += c == ']' ? '|' : c; reading<int, std::vector<int>>("|" + t, '|', '|', ',', false); reading<int, std::vector<int>>("," + t, ',', '|', ',', false); }
    for (int k = 0; k < (thorough ? 5000 : 500); ++k) { std::vector<int> x(rnd(200)); for (int& y : x) y = rnd(4) ? int(rnd(2000)) - 1000 : (rnd(2) ? INT_MAX : INT_MIN); std::ostringstream os; write_sequence(os, x.begin(), x.end()); begin("reading back " + os.str().substr(0, 300)); std::istringstream is(os.str() + "7"); std::vector<int> y{1, 2}; read_sequence(is, y); expect(x == y, "read back unchanged"); same(rest(is), std::string("7"), "input left"); }
    for (auto st : {std::ios::eofbit, std::ios::failbit, std::ios::badbit}) { begin("reading from a stream in state " + str(int(st))); std::istringstream is("[1]"); is.setstate(st); std::vector<int> v; expect(throws_as<std::ios_base::failure>([&] { read_sequence(is, v); }), "an input failure is raised"); }
    for (int k = 0; k < (thorough ? 20000 : 4000); ++k) { std::string t; size_t n = rnd(30); const std::string b = "[[]],,11223 -+x99"; t = rnd(4) ? "[" : ""; for (size_t i = 0; i < n; ++i) t += b[rnd(b.size())]; all<int>(t); all<Digit>(t); all<bool>(t, false); } }
