#include <new>
#include "opaque.hpp"
namespace vf { std::istream& operator>>(std::istream&, E&); }
#include "stlio.hpp"
using namespace Helper;
typedef std::vector<vf::E> V; typedef std::vector<int> I; typedef std::vector<bool> B; typedef std::list<vf::E> L;
extern "C" {
void vf_new_v(V* p) { new (p) V(); }
void vf_new_i(I* p) { new (p) I(); }
void vf_new_b(B* p) { new (p) B(); }
void vf_new_l(L* p) { new (p) L(); }
void vf_read_v(std::istream& is, V& v) { is >> v; }
void vf_read_i(std::istream& is, I& v) { is >> v; }
void vf_read_b(std::istream& is, B& v) { is >> v; }
void vf_seq_v(std::istream& is, V& v, char o, char c, char s) { read_sequence(is, v, o, c, s); }
void vf_seq_i(std::istream& is, I& v, char o, char c, char s) { read_sequence(is, v, o, c, s); }
void vf_seq_l(std::istream& is, L& v, char o, char c, char s) { read_sequence(is, v, o, c, s); }
}
