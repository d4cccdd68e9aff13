#include "wit.hpp"
#include "string.hpp"
#include <iomanip>
using namespace Helper; using namespace wit;
struct Two { int a, b; friend std::ostream& operator<<(std::ostream& os, Two const& t) { return os << std::setw(4) << t.a << " and\t" << std::hex << t.b << std::dec << "\n"; } };
template<class T> void conv(T const& x) { std::ostringstream s; s << x; begin("conversion of " + s.str()); same(std::string(to_string(x)), s.str(), "to_string"); same(std::string(to_str(x)), s.str(), "to_str"); same(std::string(to_string(x)), s.str(), "to_string again"); }
static void keep(std::string const& t) {
    begin("string of length " + str(t.size()) + " " + t.substr(0, 20)); String a(t); same(std::string(a), t, "from a string"); String b(a); same(std::string(b), t, "copy"); String c; same(std::string(c), std::string(), "default"); c = a; same(std::string(c), t, "assignment"); same(std::string(a), t, "source");
    String e(std::move(b)); same(std::string(e), t, "move"); same(a.size(), t.size(), "size");
    if (t.find('\0') == std::string::npos) { String d(t.c_str()); same(std::string(d), t, "from characters"); same(std::string(c_str(a)), t, "as a C string"); expect(c_str(a) == a.c_str(), "the C string is that of the object"); } expect(c_str(a)[t.size()] == 0, "the C string is terminated"); expect(memcmp(c_str(a), t.data(), t.size()) == 0, "the C string has the same characters");
    String f(t.begin(), t.end()); same(std::string(f), t, "from iterators"); String g(t, t.size() / 2); same(std::string(g), t.substr(t.size() / 2), "from part of a string"); String h(7, 'x'); same(std::string(h), std::string("xxxxxxx"), "repeated character"); }
void wit::run() {
    for (long i : {0l, 1l, -1l, 42l, 1000000l, INT64_MAX, INT64_MIN, -123456789l}) { conv(i); conv(int(i)); conv((unsigned long)i); conv(short(i)); conv(i % 2 == 0); }
    for (double x : {0.0, 1.0, -1.5, 1e-7, 1.0 / 3, 3e10, 123456.789, 1234567.0, 1e100, -0.0, 1.0 / 0.0, -1.0 / 0.0, 100000.0, 1000000.0}) { conv(x); conv(float(x)); }
    for (const char* p : {"", "a", "two words", "  leading", "trailing ", "line\nbreak", "tab\t"}) { conv(p); conv(std::string(p)); conv(String(p)); keep(p); }
    for (char ch : {'a', ' ', '\n', '0'}) conv(ch); conv(Two{3, 255}); conv(Two{-12345, 16}); conv(std::string("a\0b", 3)); keep(std::string("a\0b", 3)); keep(std::string(5000, 'q')); keep(std::string(15, 'q')); keep(std::string(16, 'q'));
    for (int i = 0; i < 200; ++i) { std::string t; for (size_t k = rnd(40); k--; ) t += char(rnd(256)); conv(t); keep(t); } }
