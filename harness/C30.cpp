#include <new>
#include "string.hpp"
#include "opaque.hpp"
using namespace Helper; using namespace vf;
extern "C" {
// the text written by default-format streaming: the oracle is the operator itself on a fresh stream
#define VF_STR(NAME,T) \
void vf_to_string_##NAME(String* at, T x) { new (at) String(to_string<std::decay_t<T>>(x)); } \
void vf_to_str_##NAME(String* at, T x) { new (at) String(to_str<std::decay_t<T>>(x)); } \
void vf_stream_##NAME(std::ostream& os, T x) { os << x; }
VF_STR(K,K const&) VF_STR(bool,bool) VF_STR(char,char) VF_STR(int,int) VF_STR(long,long) VF_STR(size_t,size_t) VF_STR(double,double) VF_STR(String,String const&) VF_STR(string,std::string const&) VF_STR(cstr,const char*)
void vf_default(String* at) { new (at) String(); }
void vf_from_string(String* at, std::string const& s) { new (at) String(s); }
void vf_from_chars(String* at, const char* s) { new (at) String(s); }
void vf_copy(String* at, String const& s) { new (at) String(s); }
void vf_move(String* at, String& s) { new (at) String(std::move(s)); }
void vf_assign(String& d, String const& s) { d=s; }
const char* vf_c_str(String const& s) { return c_str(s); }
void vf_std(std::string* at, std::string const& s) { new (at) std::string(s); }
void vf_kill(String* at) { at->~String(); }
}
