#include "wit.hpp"
#include <cmath>
#include "macros.hpp"
using namespace wit;
struct Flag { bool b; int* uses; explicit operator bool() const { ++*uses; return b; } };
template<class F> void check(bool holds, std::string const& part, F f) {
    bool thrown = false; std::string w; try { f(); } catch (std::runtime_error const& e) { thrown = true; w = e.what(); } catch (...) { fail("the error is not a runtime error"); }
    same(thrown, !holds, "an error is raised"); if (thrown) expect(w.find(part) != std::string::npos, "the message has '" + part + "': " + w); }
#define CONDITION(T, V, HOLDS, NAME) { T v = V; begin(std::string(NAME)); bool h = HOLDS; int n = 0; \
    check(h, "++n, v", [&] { HELPER_ASSERT((++n, v)); }); if (h) same(n, 1, "evaluations"); n = 0; check(h, "why 17", [&] { HELPER_ASSERT_MSG((++n, v), "why " << 17); }); if (h) same(n, 1, "evaluations"); \
    n = 0; check(h, "++n, v", [&] { HELPER_PRECONDITION((++n, v)); }); if (h) same(n, 1, "evaluations"); n = 0; check(h, "why 17", [&] { HELPER_PRECONDITION_MSG((++n, v), "why " << 17); }); if (h) same(n, 1, "evaluations"); \
    n = 0; check(h, "++n, v", [&] { HELPER_DEBUG_ASSERT((++n, v)); }); if (h) same(n, 1, "evaluations"); n = 0; check(h, "why 17", [&] { HELPER_DEBUG_ASSERT_MSG((++n, v), "why " << 17); }); if (h) same(n, 1, "evaluations"); \
    n = 0; check(h, "++n, v", [&] { HELPER_DEBUG_PRECONDITION((++n, v)); }); if (h) same(n, 1, "evaluations"); }
#define EQUAL(T, A, B) { T a = A; T b = B; begin("equality of " + str(a) + " and " + str(b)); int n = 0; int m = 0; check(a == b, "failed", [&] { HELPER_ASSERT_EQUAL((++n, a), (++m, b)); }); if (a == b) { same(n, 1, "evaluations"); same(m, 1, "evaluations"); } }
static void not_implemented() { HELPER_NOT_IMPLEMENTED }
void wit::run() {
    for (bool b : {false, true}) CONDITION(bool, b, b, "bool " + str(b));
    for (int i : {0, 1, -1, 2, 256, 65536, INT32_MIN, INT32_MAX}) CONDITION(int, i, i != 0, "int " + str(i));
    for (long i : {0l, 1l, -1l, 1l << 32, 1l << 40, INT64_MIN, 256l}) CONDITION(long, i, i != 0, "long " + str(i));
    for (double x : {0.0, -0.0, 0.25, 1e-300, -0.5, 1e300, 1e-320, HUGE_VAL, std::nan("")}) CONDITION(double, x, x != 0, "double " + str(x));
    for (unsigned char x : {0, 1, 2, 128, 255}) CONDITION(unsigned char, x, x != 0, "unsigned char " + str(int(x)));
    int here = 0; for (int* p : {(int*)nullptr, &here}) CONDITION(int*, p, p != nullptr, "pointer");
    for (bool b : {false, true}) { int uses = 0; Flag f{b, &uses}; CONDITION(Flag const&, f, b, "an explicitly convertible object"); if (b) same(uses, 7, "conversions"); }
    for (bool a : {false, true}) for (bool b : {false, true}) { begin("compound conditions"); check(a || b, "a || b", [&] { HELPER_ASSERT(a || b); }); check(a && b, "why", [&] { HELPER_PRECONDITION_MSG(a && b, "why"); }); check(a ? b : !b, "why", [&] { HELPER_ASSERT_MSG(a ? b : !b, "why"); }); check(!a || b, "b", [&] { if (a) HELPER_ASSERT(b) else (void)0; }); }
    for (int i : {0, 1, -1, 7, 1 << 30}) for (int j : {0, 1, -1, 7, 1 << 30}) { EQUAL(int, i, j) EQUAL(long, (long(i) << 32) + j, (long(j) << 32) + i) EQUAL(double, i / 2.0, j / 2.0) EQUAL(double, i + 1e-9 * j, i) EQUAL(double, j ? i / 2.0 : std::nan(""), i ? i / 2.0 : std::nan("")) EQUAL(std::string, str(i), str(j)) }
    begin("failing"); for (int i = 0; i < 5; ++i) { int n = 0; check(false, "why " + str(i), [&] { ++n; HELPER_FAIL_MSG("why " << i); ++n; }); same(n, 1, "statements executed"); } check(false, "ot implemented", [&] { not_implemented(); });
}
