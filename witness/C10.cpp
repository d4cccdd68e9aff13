// flags: -D_GLIBCXX_ASSERTIONS
#include "wit.hpp"
#include "words.hpp"
#include <iomanip>
using namespace wit; using namespace Helper;
static std::string rest(std::istream& is) { is.clear(); std::string s; char c; while (is.get(c)) s += c; return s; }
static bool plain(std::string const& t, Bits& b, std::string& left) {      // the documented plain form at the start of t
    size_t i = 0; while (i < t.size() && std::isspace((unsigned char)t[i])) ++i; if (i < t.size() && t[i] == '[') return false;
    b.clear(); while (i < t.size() && (t[i] == '0' || t[i] == '1')) b.push_back(t[i++] == '1'); left = t.substr(i); return true; }
static void reading(std::string const& t) {
    Bits b; std::string left; if (!plain(t, b, left)) return;
    begin("reading '" + t + "'"); std::istringstream is(t); BinaryWord w = word({1, 0, 1}); is >> w; holds(w, b, "word"); same(rest(is), left, "input left");
    holds(make_binary_word(t), b, "make_binary_word"); holds(BinaryWord(t), b, "word from a string"); }
static void round_trip(Bits const& x) {
    begin("word '" + txt(x) + "'"); BinaryWord a = word(x); std::string want = x.empty() ? "e" : txt(x);
    for (int f = 0; f < 5; ++f) { std::ostringstream os; if (f == 1) os << std::boolalpha; if (f == 2) os << std::showpos << std::hex; if (f == 3) os << std::noboolalpha << std::showbase; if (f == 4) os << std::oct << std::setfill('*') << std::left; auto fl = os.flags(); os << a; same(os.str(), want, "written text"); expect(os.flags() == fl, "stream flags unchanged"); os << true << 17; std::ostringstream o2; o2.flags(fl); o2 << true << 17; same(os.str(), want + o2.str(), "what is written afterwards"); }
    { std::stringstream s; s << a; BinaryWord b = word({1, 1, 0, 0, 1}); s >> b; holds(b, x, "read back from a stream"); holds(a, x, "written word"); }
    { std::stringstream s; s << a << " " << a << "x"; BinaryWord b, c; s >> b; if (!x.empty()) { s >> c; holds(c, x, "second word read back"); same(rest(s), std::string("x"), "input left"); } holds(b, x, "first word read back"); }
    { std::ostringstream s; s << a; holds(make_binary_word(s.str()), x, "read back from a string"); holds(BinaryWord(s.str()), x, "word from its text"); }
    for (int form = 0; form < 3; ++form) { std::string t = form == 1 ? " [ " : "["; for (size_t i = 0; i < x.size(); ++i) { if (i) t += form == 2 ? " , " : ","; t += x[i] ? '1' : '0'; } t += form == 2 ? " ]" : "]"; begin("reading '" + t + "'"); std::istringstream is(t + "0z"); BinaryWord b = word({1}); is >> b; holds(b, x, "word listed"); same(rest(is), std::string("0z"), "input left"); holds(make_binary_word(t), x, "make_binary_word"); } }
void wit::run() {
    for (auto& x : small(6)) round_trip(x); for (int k = 0; k < (thorough ? 3000 : 300); ++k) round_trip(random_bits(rnd(400)));
    const std::string al = "01 2[e\n\xff"; std::vector<std::string> ts{""}; for (size_t i = 0; i < ts.size(); ++i) if (ts[i].size() < (thorough ? 5u : 4u)) for (char c : al) ts.push_back(ts[i] + c); for (auto& t : ts) reading(t);
    for (auto st : {std::ios::eofbit, std::ios::failbit, std::ios::badbit}) { begin("reading from a stream in state " + str(int(st))); std::istringstream is("0101"); is.setstate(st); BinaryWord w = word({1, 1}); is >> w; holds(w, {}, "word"); }
    { begin("reading at the end"); std::istringstream is("0 "); BinaryWord w; is >> w; holds(w, {0}, "word"); is >> w; holds(w, {}, "word"); is >> w; holds(w, {}, "word"); } }
