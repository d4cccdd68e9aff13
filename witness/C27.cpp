#include "wit.hpp"
#include <cmath>
#include "test.hpp"
#include <limits>
#include "string.hpp"
#include "metaprogramming.hpp"
using namespace wit;
using Helper::Same; using Helper::First; using Helper::class_name;
template<class A, class B> struct IsEquivalent : std::is_same<A,B> { };
typedef std::vector<int> GridTreeSubpaving0; struct GridTreeSubpaving : GridTreeSubpaving0 { typedef GridTreeSubpaving0::const_iterator ConstIterator; };
struct Made { int v; static Made with(int x); friend std::ostream& operator<<(std::ostream& os, Made const& m) { return os << m.v; } };
struct Odd : std::exception { const char* what() const noexcept override { return "odd"; } };
static int sel = 0;
static void act() { if (sel == 1) throw std::out_of_range("range"); if (sel == 2) throw std::runtime_error("run"); if (sel == 3) throw Odd(); if (sel == 4) throw 7; }
static int pick(int v) { act(); return v; }
Made Made::with(int x) { return Made{pick(x)}; }
template<class A, class B> static bool same(A const& a, B const& b) { return a == b; }
static bool positive(int x) { return x > 0; }
static bool less3(int a, int b) { return a < b + 3; }
template<class F> void counts(bool bad, F f, std::string const& what, int skips = 0) {
    int n = HELPER_TEST_FAILURES = int(rnd(100)), s = HELPER_TEST_SKIPPED = int(rnd(100));
    try { f(); } catch (...) { fail(what + ": an exception leaves the macro"); }
    wit::same(HELPER_TEST_FAILURES - n, int(bad), what + ": failures counted"); wit::same(HELPER_TEST_SKIPPED - s, skips, what + ": skipped tests counted"); }
template<class T> void pairs(std::vector<T> const& vs) {
    for (T a : vs) for (T b : vs) { begin("values " + str(+a) + " and " + str(+b));
        counts(!(a == b), [&] { HELPER_TEST_CHECK(a, b); }, "CHECK"); counts(!(a == b), [&] { HELPER_TEST_EQUAL(a, b); }, "EQUAL"); counts(a == b, [&] { HELPER_TEST_NOT_EQUAL(a, b); }, "NOT_EQUAL");
        counts(!(a == b), [&] { HELPER_TEST_EQUALS(a, b); }, "EQUALS"); counts(!(a < b), [&] { HELPER_TEST_LESS(a, b); }, "LESS"); counts(!(a == b), [&] { HELPER_TEST_SAME(a, b); }, "SAME"); counts(!(a == b), [&] { HELPER_TEST_SAME_AS(a, b); }, "SAME_AS");
        counts(false, [&] { HELPER_TEST_CHECK_WARN(a, b); }, "CHECK_WARN"); counts(!a, [&] { HELPER_TEST_ASSERT(a); }, "ASSERT"); counts(a != b, [&] { HELPER_TEST_EQUALS(a - b, 0); }, "EQUALS of a difference");
#define CMP(OP) counts(!(a OP b), [&] { HELPER_TEST_COMPARE(a, OP, b); }, "COMPARE " #OP); counts(!(a OP b), [&] { HELPER_TEST_RESULT_COMPARE(T, a, OP, b); }, "RESULT_COMPARE " #OP);
        CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=) } }
template<class A, class B, class C> void within(std::vector<A> const& as, std::vector<B> const& bs, std::vector<C> const& cs) {
    for (A a : as) for (B b : bs) for (C t : cs) { begin("tolerance " + str(+t) + " for " + str(+a) + " and " + str(+b)); bool ok;
        if constexpr (std::is_integral_v<A> && std::is_integral_v<B>) { __int128 d = __int128(a) - __int128(b); if (d < 0) d = -d; if (d >> 64) continue; if constexpr (std::is_integral_v<C>) ok = d <= __int128(t); else ok = double((unsigned long long)d) <= double(t); }
        else ok = std::abs(double(a) - double(b)) <= double(t);
        counts(!ok, [&] { HELPER_TEST_WITHIN(a, b, t); }, "WITHIN"); } }
struct Holder { void test() { HELPER_TEST_CALL(act()); } };
void wit::run() {
    std::ostringstream sink; auto* o = std::cout.rdbuf(sink.rdbuf()); auto* e = std::cerr.rdbuf(sink.rdbuf()); const int M = std::numeric_limits<int>::max(), L = std::numeric_limits<int>::min();
    pairs<int>({0, 1, 2, -1, 7}); pairs<long>({0, 1, 1l << 32, -1}); pairs<double>({0, 0.5, 0.25, -0.5}); pairs<unsigned char>({0, 1, 255});
    within<int, int, int>({0, 1, -1, 5, 100}, {0, 2, -3, 6}, {0, 1, 2, 5, -1}); within<int, int, int>({L, M, 0, 1}, {L, M, 0, -1}, {0, 1, M}); within<long, long, long>({INT64_MIN, INT64_MAX, 0}, {INT64_MIN, INT64_MAX, 1}, {0, 1, INT64_MAX});
    within<unsigned, unsigned, unsigned>({0, 1, 5, ~0u}, {0, 2, ~0u}, {0, 1, 4, ~0u}); within<unsigned long, unsigned long, int>({0, 1, ~0ul}, {0, 3, ~0ul}, {0, 1, 3, -1}); within<unsigned char, unsigned char, int>({0, 1, 255}, {0, 3, 255}, {0, 1, 3, 254, 255});
    within<int, unsigned, int>({-1, 0, 1, M}, {0, 1, ~0u}, {0, 1, 2, M}); within<unsigned, long, long>({0, 1, ~0u}, {-1, 0, 5}, {0, 1, 4, 1l << 32}); within<int, int, unsigned>({-5, 0, 5}, {-5, 0, 7}, {0, 2, ~0u});
    { double nan = std::nan(""), inf = HUGE_VAL; within<double, double, double>({nan, 0, 1}, {0, nan, 1}, {0, 1, nan, inf}); within<double, double, double>({inf, -inf}, {0, 1, -1}, {0, 1, 1e300, inf}); within<float, float, float>({float(nan), 0}, {0, float(nan)}, {1, float(nan)}); within<double, int, double>({nan, 1}, {0, 1}, {0, 2, nan}); within<int, double, int>({0, 1}, {nan, 1}, {0, 5});
        for (double a : {0.0, -0.0, 1.0, nan, inf, -inf}) for (double b : {0.0, 1.0, nan, inf, -inf}) { begin("floating-point values " + str(a) + " and " + str(b)); counts(!(a == b), [&] { HELPER_TEST_EQUAL(a, b); }, "EQUAL"); counts(!(a == b), [&] { HELPER_TEST_EQUALS(a, b); }, "EQUALS"); counts(!(a != b), [&] { HELPER_TEST_NOT_EQUAL(a, b); }, "NOT_EQUAL"); counts(!(a < b), [&] { HELPER_TEST_LESS(a, b); }, "LESS"); counts(!(a <= b), [&] { HELPER_TEST_COMPARE(a, <=, b); }, "COMPARE"); counts(!(a > b), [&] { HELPER_TEST_COMPARE(a, >, b); }, "COMPARE"); counts(!a, [&] { HELPER_TEST_ASSERT(a); }, "ASSERT"); } }
    within<double, double, double>({0, 0.5, 1, -1e100}, {0, 0.75, -1}, {0, 0.25, 0.5, -1, 1e200}); within<float, float, float>({0, 0.5f}, {0, 0.75f}, {0, 0.25f, 0.125f}); within<double, int, double>({0, 0.5, 2.5}, {0, 1, 3}, {0, 0.5, 0.25}); within<int, double, double>({0, 1, 3}, {0, 0.5, 2.5}, {0, 0.5, 0.25}); within<int, int, double>({0, 1, L}, {0, 2, M}, {0, 0.5, 1, 1e10});
    for (int a = -2; a < 3; ++a) for (int b = -2; b < 3; ++b) for (int c = -2; c < 3; ++c) for (int t = 0; t < 3; ++t) { begin("tolerance of expressions"); counts(std::abs((a + b) - (c - b)) > t + 1, [&] { HELPER_TEST_WITHIN(a + b, c - b, t + 1); }, "WITHIN of sums"); counts((a ? b : c) != (a ? c : b), [&] { HELPER_TEST_CHECK(a ? b : c, a ? c : b); }, "CHECK of conditionals"); counts(!((a ? b : c) < (t ? c : a)), [&] { HELPER_TEST_COMPARE(a ? b : c, <, t ? c : a); }, "COMPARE of conditionals"); }
    for (int a = -4; a < 5; ++a) for (int b = -4; b < 5; ++b) { begin("predicates"); counts(!positive(a), [&] { HELPER_TEST_UNARY_PREDICATE(positive, a); }, "UNARY_PREDICATE"); counts(!less3(a, b), [&] { HELPER_TEST_BINARY_PREDICATE(less3, a, b); }, "BINARY_PREDICATE"); }
    for (sel = 0; sel < 5; ++sel) { begin("what is raised: " + str(sel)); int x = 3;
        counts(sel != 0, [&] { HELPER_TEST_CALL(act()); }, "CALL"); counts(sel != 0, [&] { HELPER_TEST_TRY(act()); }, "TRY"); counts(sel != 0, [&] { HELPER_TEST_EVALUATE(pick(1)); }, "EVALUATE"); counts(sel != 0, [&] { HELPER_TEST_ASSIGN(x, pick(1)); }, "ASSIGN"); wit::same(x, sel ? 3 : 1, "the variable"); counts(sel == 0, [&] { HELPER_TEST_FAIL(act()); }, "FAIL");
        if (sel != 4) { counts(sel != 1, [&] { HELPER_TEST_THROWS(act(), std::out_of_range); }, "THROWS"); counts(sel != 2, [&] { HELPER_TEST_THROWS(act(), std::runtime_error); }, "THROWS"); counts(sel == 0, [&] { HELPER_TEST_THROWS(act(), std::exception); }, "THROWS of a base"); counts(sel != 1, [&] { HELPER_TEST_THROWS(act(), std::logic_error); }, "THROWS of a base"); counts(sel != 3, [&] { HELPER_TEST_THROWS(act(), Odd); }, "THROWS of an own type"); }
        if (sel == 0 || sel == 4 || true) counts(sel != 4, [&] { try { HELPER_TEST_THROWS(act(), int); } catch (std::exception const&) { fail("THROWS lets a standard exception out"); } }, "THROWS of another type");
        counts(false, [&] { HELPER_TEST_SKIP(act()); }, "SKIP", 1); counts(sel != 0, [&] { Holder h; HELPER_TEST_CLASS(Holder, h); }, "CLASS"); }
    begin("notices"); counts(false, [&] { HELPER_TEST_WARN("w" << 1); HELPER_TEST_NOTIFY("n" << 1); HELPER_TEST_PRINT(2); HELPER_TEST_EXECUTE((void)0); HELPER_PRINT_TEST_COMMENT("c"); HELPER_PRINT_TEST_CASE_TITLE("t"); HELPER_TEST_CONSTRUCT(int, k, (3)); HELPER_TEST_ASSIGN_CONSTRUCT(int, j, 4); expect(k == 3 && j == 4, "constructed"); }, "notices");
    begin("types"); counts(false, [&] { HELPER_TEST_SAME_TYPE(Helper::String, Helper::String); HELPER_TEST_EQUIVALENT_TYPE(Helper::String, Helper::String); }, "SAME_TYPE"); counts(true, [&] { HELPER_TEST_SAME_TYPE(Helper::String, int); }, "SAME_TYPE"); counts(true, [&] { HELPER_TEST_EQUIVALENT_TYPE(Helper::String, int); }, "EQUIVALENT_TYPE");
    sel = 0; begin("named constructor"); counts(false, [&] { HELPER_TEST_NAMED_CONSTRUCT(Made, m, with(3)); expect(m.v == 3, "constructed"); HELPER_TEST_DEFAULT_CONSTRUCT(std::string, d); expect(d.empty(), "constructed"); HELPER_TEST_DECLARE(int, z); }, "NAMED_CONSTRUCT");
    for (int wrong = -1; wrong < 4; ++wrong) for (size_t n = 0; n < 6; ++n) { begin("iterating " + str(wrong) + " of " + str(n)); GridTreeSubpaving g; for (size_t i = 0; i < n; ++i) g.push_back(int(i)); std::vector<int> w(9); for (int i = 0; i < 9; ++i) w[i] = i + (i == wrong); std::vector<int*> x; for (auto& y : w) x.push_back(&y);
        for (size_t want = 0; want < 9; ++want) { int f = HELPER_TEST_FAILURES = 5; HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR(x, g, want); wit::same(HELPER_TEST_FAILURES - f, int(want != n) + int(wrong >= 0 && size_t(wrong) < std::min(n, want)), "failures counted by the iterator check"); } }
    { begin("clean"); std::vector<int*> v{new int(1), nullptr, new int(2)}; counts(false, [&] { HELPER_CLEAN_TEST_VECTOR(v); }, "CLEAN"); expect(v == std::vector<int*>(3, nullptr), "cleaned"); }
    begin("static checks"); counts(false, [&] { HELPER_TEST_STATIC_ASSERT(std::is_same<int, int>); HELPER_TEST_CONCEPT(std::is_same_v<int, int>); }, "STATIC"); counts(true, [&] { HELPER_TEST_STATIC_ASSERT(std::is_same<int, long>); }, "STATIC_ASSERT"); counts(true, [&] { HELPER_TEST_CONCEPT(std::is_same_v<int, long>); }, "CONCEPT");
    std::cout.rdbuf(o); std::cerr.rdbuf(e);
}
