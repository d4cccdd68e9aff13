#include <new>
#include "binary_word.hpp"
using namespace Helper;
typedef BinaryWord W;
extern "C" {
void vf_new(W* p) { new (p) W(); }
void vf_write(std::ostream& os, W const& w) { os << w; }
void vf_read(std::istream& is, W& w) { is >> w; }
void vf_make(W* p, std::string const& s) { new (p) W(make_binary_word(s)); }
void vf_ctor(W* p, std::string const& s) { new (p) W(s); }
void vf_round(W const& a, W& b) { std::stringstream s; s << a; s >> b; }
void vf_round_string(W const& a, W* b) { std::ostringstream s; s << a; new (b) W(make_binary_word(s.str())); }
void vf_istream(std::string const& s, W& b) { std::istringstream is(s); is >> b; }
}
