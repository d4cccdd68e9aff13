#define WIT_ALLOC
#include "wit.hpp"
#include <memory>
#include "lazy.hpp"
using namespace wit; using namespace Helper;
struct Made { static inline long alive = 0; int v; explicit Made(int x) : v(x) { ++alive; } Made(Made const&) = delete; ~Made() { --alive; } };
struct Refused : std::runtime_error { int k; explicit Refused(int n) : std::runtime_error("refused"), k(n) { } };
static long calls = 0; static int refusals = 0;
static Made* make(int v) { ++calls; if (refusals > 0) { --refusals; throw Refused(int(calls)); } return new Made(v); }
static void one(int v, int fails) {
    calls = 0; refusals = 0; { Lazy<Made> l([v] { return make(v); }); same(calls, 0l, "calls at construction"); refusals = fails;
        for (int i = 0; i < fails; ++i) { int k = 0; try { l(); } catch (Refused const& r) { k = r.k; } same(k, i + 1, "the error of the factory reaches the caller"); same(Made::alive, 0l, "nothing is kept"); }
        Made const& m = l(); same(calls, long(fails) + 1, "calls at the first access"); same(m.v, v, "value"); for (int i = 0; i < 5; ++i) expect(&l() == &m, "the same object"); same(calls, long(fails) + 1, "calls after more accesses"); Lazy<Made> const& cl = l; expect(&cl() == &m, "the same object");
        { auto c = std::make_unique<Lazy<Made>>(l); expect(&(*c)() == &m, "a copy shares the object"); Lazy<Made> d([] { return make(-1); }); d = *c; expect(&d() == &m, "an assigned copy shares the object"); Lazy<Made> e(std::move(*c)); expect(&e() == &m, "a moved one keeps the object"); same(calls, long(fails) + 1, "calls after copying"); } same(Made::alive, 1l, "objects"); expect(&l() == &m, "the same object"); }
    same(Made::alive, 0l, "objects left over"); same(calls, long(fails) + 1, "calls in all");
    Made const* p = nullptr; std::unique_ptr<Lazy<Made>> keep; { Lazy<Made> l([v] { return make(v); }); p = &l(); keep = std::make_unique<Lazy<Made>>(l); } same(Made::alive, 1l, "the copy keeps the object"); expect(&(*keep)() == p && p->v == v, "the same object"); keep.reset(); same(Made::alive, 0l, "objects left over");
    calls = 0; { Lazy<Made> l([v] { return make(v); }); Lazy<Made> c(l); } same(calls, 0l, "calls without an access"); }
void wit::run() {
    for (int v = 0; v < 60; ++v) for (int f = 0; f < 4; ++f) { begin("value " + str(v) + " after " + str(f) + " refusals"); one(v, f); }
    begin("storage"); noleak([] { Lazy<Made> l([] { return make(3); }); Made const* a = nullptr; try { a = &l(); } catch (std::bad_alloc const&) { l(); throw; } if (a) expect(&l() == a, "same object"); Lazy<Made> m(l); m(); }, true); same(Made::alive, 0l, "objects left over"); }
