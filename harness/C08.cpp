#include <new>
#include "binary_word.hpp"
using namespace Helper;
typedef BinaryWord W;
extern "C" {
void vf_new(W* p) { new (p) W(); }
bool vf_less(W const& a, W const& b) { return a < b; }
bool vf_prefix(W const& a, W const& b) { return a.is_prefix(b); }
bool vf_subword(W const& a, W const& b) { return a.is_subword(b); }
size_t vf_size(W const& a) { return a.size(); }
size_t vf_bytes(W const& a) { return a.bytes(); }
void vf_set_back(W& a, bool x) { a.set_back(x); }
void vf_erase_prefix(W& a, int k) { a.erase_prefix(k); }
void vf_append_bit(W& a, bool const& x) { a.append(x); }
void vf_append_word(W& a, W const& b) { a.append(b); }
void vf_copy(W* p, W const& a) { new (p) W(a); }
}
