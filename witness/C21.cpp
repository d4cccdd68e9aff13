#include "wit.hpp"
#include "range.hpp"
using namespace Helper; using namespace wit;
static void one(Range r, size_t a, size_t b, bool walk) {
    same(r.size(), b - a, "size"); same(r.start(), a, "start"); same(r.stop(), b, "stop"); same(r.stride(), size_t(1), "stride");
    if (b > a) { size_t is[] = {0, 1, 2, b - a - 1, (b - a) / 2}; for (size_t i : is) if (i < b - a) same(r[i], a + i, "entry " + str(i)); }
    if (walk) { size_t k = a; size_t n = 0; for (size_t i : r) { same(i, k, "position visited"); ++k; expect(++n <= b - a, "no more positions than the size"); } same(n, b - a, "positions visited");
        k = a; for (auto it = begin(r); it != end(r); ++it, ++k) same(*it, k, "position"); same(k, b, "end of the iteration"); } }
void wit::run() {
    size_t top = ~size_t(0); std::vector<size_t> pts; for (size_t i = 0; i < 40; ++i) { pts.push_back(i); pts.push_back(top - i); pts.push_back((size_t(1) << 63) - 20 + i); pts.push_back((size_t(1) << 32) - 20 + i); pts.push_back((size_t(1) << 31) - 20 + i); }
    for (size_t a : pts) for (size_t b : pts) if (a <= b) { begin("range " + str(a) + " to " + str(b), a < b); one(Range(a, b), a, b, b - a < 100); one(range(a, b), a, b, b - a < 100); if (a == 0) one(range(b), 0, b, b < 100); } }
