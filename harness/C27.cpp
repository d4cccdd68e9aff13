// Every checking macro of the test framework, over opaque values, numbers, and statements that raise what they like.
#include <iostream>
#include <stdexcept>
#include <string>
#include <cstdint>
#include "test.hpp"
#include "string.hpp"
#include "metaprogramming.hpp"
#include "opaque.hpp"
using namespace Helper;
template<class A, class B> struct IsEquivalent : std::is_same<A,B> { };
using namespace vf;
namespace vf { bool odd(V const&) noexcept; bool near_to(V const&, K const&) noexcept; }
static bool same(V const& x, V const& y) { return x==y; }
struct Special : std::exception { const char* what() const noexcept override { return "special"; } };
struct Other { long code; };
// what: 0 nothing, 1 out_of_range, 2 runtime_error, 3 a class derived from exception, 4 something else
static void act(int what) { if(what==1) throw std::out_of_range("out of range"); if(what==2) throw std::runtime_error("runtime error"); if(what==3) throw Special(); if(what==4) throw Other{what}; }
static V const& pick(int what, V const& v) { act(what); return v; }
struct Choosy { V value; Choosy(int what, V const& v) : value(pick(what,v)) { } static Choosy with(int what, V const& v) { return Choosy(what,v); } friend std::ostream& operator<<(std::ostream& os, Choosy const& c) { return os << c.value; } };
struct Suite { bool* ran; void test() { *ran=true; } };
extern "C" {
int* vf_failures() { return &HELPER_TEST_FAILURES; }
int* vf_skipped() { return &HELPER_TEST_SKIPPED; }
std::string* vf_class() { return &HELPER_CURRENT_TESTING_CLASS; }
void vf_assert(bool p, bool q) { HELPER_TEST_ASSERT(p ? q : !q) }
void vf_assert_int(long n) { HELPER_TEST_ASSERT(n) }
void vf_check(V const& x, V const& y, V const& z, bool p) { HELPER_TEST_CHECK(p ? x : y,p ? y : z) }
void vf_check_warn(V const& x, V const& y, V const& z, bool p) { HELPER_TEST_CHECK_WARN(p ? x : y,p ? y : z) }
void vf_same(V const& x, V const& y, V const& z, bool p) { HELPER_TEST_SAME(p ? x : y,p ? y : z) }
void vf_same_as(V const& x, V const& y, V const& z, bool p) { HELPER_TEST_SAME_AS(p ? x : y,p ? y : z) }
void vf_equal(V const& x, V const& y, V const& z, bool p) { HELPER_TEST_EQUAL(p ? x : y,p ? y : z) }
void vf_not_equal(V const& x, V const& y, V const& z, bool p) { HELPER_TEST_NOT_EQUAL(p ? x : y,p ? y : z) }
void vf_equals(V const& x, V const& y, V const& z, bool p) { HELPER_TEST_EQUALS(p ? x : y,p ? y : z) }
void vf_less(K const& x, K const& y, K const& z, bool p) { HELPER_TEST_LESS(p ? x : y,p ? y : z) }
void vf_equal_long(long x, long y) { HELPER_TEST_EQUAL(x,y) }
void vf_equals_double(double x, double y) { HELPER_TEST_EQUALS(x,y) }
void vf_equal_mixed(int x, long y) { HELPER_TEST_EQUAL(x,y) }
void vf_equals_string_free(char x, char y) { HELPER_TEST_EQUALS(x,y) }
#define VF_COMPARE(NAME,OP) void vf_compare_##NAME(K const& x, K const& y, K const& z, bool p) { HELPER_TEST_COMPARE(p ? x : y,OP,p ? y : z) } \
void vf_result_compare_##NAME(K const& x, K const& y, K const& z, bool p) { HELPER_TEST_RESULT_COMPARE(K,p ? x : y,OP,p ? y : z) }
VF_COMPARE(lt,<) VF_COMPARE(le,<=) VF_COMPARE(gt,>) VF_COMPARE(ge,>=) VF_COMPARE(eq,==) VF_COMPARE(ne,!=)
void vf_unary(V const& x, V const& y, bool p) { HELPER_TEST_UNARY_PREDICATE(odd,p ? x : y) }
void vf_binary(V const& x, V const& y, K const& k, K const& l, bool p) { HELPER_TEST_BINARY_PREDICATE(near_to,p ? x : y,p ? k : l) }
#define VF_WITHIN(NAME,T,U,W) void vf_within_##NAME(T x, U y, W t) { HELPER_TEST_WITHIN(x,y,t) }
VF_WITHIN(int,int,int,int) VF_WITHIN(long,long,long,long) VF_WITHIN(uint,unsigned,unsigned,unsigned) VF_WITHIN(ulong,unsigned long,unsigned long,unsigned long) VF_WITHIN(short,short,short,int) VF_WITHIN(uchar,unsigned char,unsigned char,int)
VF_WITHIN(mixed,int,unsigned,int) VF_WITHIN(mixed2,unsigned,long,long) VF_WITHIN(ulong_int,unsigned long,unsigned long,int) VF_WITHIN(int_uint,int,int,unsigned) VF_WITHIN(double,double,double,double) VF_WITHIN(float,float,float,float) VF_WITHIN(double_int,double,int,double) VF_WITHIN(int_double,int,double,double) VF_WITHIN(int_real_tolerance,int,int,double)
void vf_within_expr(int a, int b, int c, int d, int t, int s) { HELPER_TEST_WITHIN(a+b,c+d,t+s) }
void vf_within_expr_double(double a, double b, double c, double d, double t, double s, bool p) { HELPER_TEST_WITHIN(p ? a : b,c-d,p ? t : s) }
void vf_throws(int what) { HELPER_TEST_THROWS(act(what),std::out_of_range) }
void vf_throws_base(int what) { HELPER_TEST_THROWS(act(what),std::exception) }
void vf_throws_logic(int what) { HELPER_TEST_THROWS(act(what),std::logic_error) }
void vf_throws_special(int what) { HELPER_TEST_THROWS(act(what),Special) }
void vf_throws_other(int what) { HELPER_TEST_THROWS(act(what),Other) }
void vf_fail(int what) { HELPER_TEST_FAIL(act(what)) }
void vf_call(int what) { HELPER_TEST_CALL(act(what)) }
void vf_try(int what) { HELPER_TEST_TRY(act(what)) }
void vf_evaluate(int what, V const& v) { HELPER_TEST_EVALUATE(pick(what,v)) }
void vf_assign(int what, V& to, V const& v) { HELPER_TEST_ASSIGN(to,pick(what,v)) }
void vf_same_type_true() { HELPER_TEST_SAME_TYPE(String,String) }
void vf_same_type_false() { HELPER_TEST_SAME_TYPE(String,long) }
void vf_equivalent_true() { HELPER_TEST_EQUIVALENT_TYPE(String,String) }
void vf_equivalent_false() { HELPER_TEST_EQUIVALENT_TYPE(String,long) }
void vf_static_true() { HELPER_TEST_STATIC_ASSERT(std::is_same<int,int>) }
void vf_static_false() { HELPER_TEST_STATIC_ASSERT(std::is_same<int,long>) }
void vf_concept_true() { HELPER_TEST_CONCEPT(std::is_convertible_v<int,long>) }
void vf_concept_false() { HELPER_TEST_CONCEPT(std::is_convertible_v<V,K>) }
void vf_skip(int what) { HELPER_TEST_SKIP(act(what)) }
void vf_warn(V const& v) { HELPER_TEST_WARN("careful: " << v) }
void vf_notify(V const& v) { HELPER_TEST_NOTIFY("note: " << v) }
void vf_print(V const& v) { HELPER_TEST_PRINT(v) }
void vf_execute() { HELPER_TEST_EXECUTE(act(0)) }
void vf_comment(V const& v) { HELPER_PRINT_TEST_COMMENT("about " << v) }
void vf_title(V const& v) { HELPER_PRINT_TEST_CASE_TITLE("case " << v) }
void vf_construct(V const& v) { HELPER_TEST_CONSTRUCT(V,w,(v)) }
void vf_assign_construct(V const& v) { HELPER_TEST_ASSIGN_CONSTRUCT(V,w,v) }
void vf_two(V const& x, V const& y, K const& k, K const& l) { HELPER_TEST_EQUAL(x,y) HELPER_TEST_LESS(k,l) }
void vf_under_if(bool g, V const& x, V const& y) { if(g) HELPER_TEST_EQUALS(x,y) else HELPER_TEST_SKIP(nothing) }
void vf_declare() { HELPER_TEST_DECLARE(vf::E,e) }
void vf_default_construct() { HELPER_TEST_DEFAULT_CONSTRUCT(vf::E,e) }
void vf_named_construct(V const& v) { HELPER_TEST_NAMED_CONSTRUCT(Choosy,w,with(0,v)) }
void vf_suite(bool* ran) { Suite s{ran}; HELPER_TEST_CLASS(Suite,s) }
}
