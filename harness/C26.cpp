// Each macro with every kind of condition: bool, integers, floating point, pointers, explicitly convertible objects.
#include "macros.hpp"
#include "opaque.hpp"
using namespace vf;
struct Cond { bool b; explicit operator bool() const { return b; } };
struct Other { bool b; explicit operator bool() const { return b; } };
extern "C" {
#define VF_FAMILY(NAME,T,CONVERT) \
void vf_assert_##NAME(size_t& evaluated, T c) { HELPER_ASSERT((++evaluated,c)); } \
void vf_assert_msg_##NAME(size_t& evaluated, T c, K const& k) { HELPER_ASSERT_MSG((++evaluated,c),"because of "<<k); } \
void vf_precondition_##NAME(size_t& evaluated, T c) { HELPER_PRECONDITION((++evaluated,c)); } \
void vf_precondition_msg_##NAME(size_t& evaluated, T c, K const& k) { HELPER_PRECONDITION_MSG((++evaluated,c),"because of "<<k); } \
void vf_debug_assert_##NAME(size_t& evaluated, T c) { HELPER_DEBUG_ASSERT((++evaluated,c)); } \
void vf_debug_assert_msg_##NAME(size_t& evaluated, T c, K const& k) { HELPER_DEBUG_ASSERT_MSG((++evaluated,c),"because of "<<k); } \
void vf_debug_precondition_##NAME(size_t& evaluated, T c) { HELPER_DEBUG_PRECONDITION((++evaluated,c)); }
VF_FAMILY(bool,bool,) VF_FAMILY(long,long,) VF_FAMILY(double,double,) VF_FAMILY(ptr,void const*,) VF_FAMILY(obj,Cond const&,)
void vf_fail_msg(size_t& evaluated, K const& k) { ++evaluated; HELPER_FAIL_MSG("because of "<<k); }
void vf_equal_V(size_t& evaluated, V const& x, V const& y) { HELPER_ASSERT_EQUAL((++evaluated,x),y); }
void vf_equal_i(size_t& evaluated, long x, long y) { HELPER_ASSERT_EQUAL((++evaluated,x),(y)); }
void vf_equal_d(size_t& evaluated, double x, double y) { HELPER_ASSERT_EQUAL((++evaluated,x),(y)); }
void vf_equal_expr(size_t& evaluated, long x, long y) { HELPER_ASSERT_EQUAL((++evaluated,x)-y,2*y); }
// conditions with operators of low precedence, and the macros as single statements
void vf_prec(size_t& evaluated, bool a, bool b) { HELPER_ASSERT(++evaluated && a || b); }
void vf_prec_msg(size_t& evaluated, bool a, bool b, K const& k) { HELPER_ASSERT_MSG(a ? b : !b,"because of "<<k); }
void vf_under_if(size_t& evaluated, bool a, bool b) { if(a) HELPER_ASSERT(b) else ++evaluated; }
void vf_in_loop(size_t n, size_t bound) { for(size_t i=0; i!=n; ++i) HELPER_PRECONDITION(i<bound) }
void vf_two(bool a, bool b, K const& k) { HELPER_ASSERT(a); HELPER_PRECONDITION_MSG(b,k); }
// "not implemented" always raises
void vf_not_implemented() { HELPER_NOT_IMPLEMENTED }
}
