#include "wit.hpp"
#include "stopwatch.hpp"
#include <thread>
using namespace wit; using namespace Helper; using C = std::chrono::high_resolution_clock; using N = std::chrono::nanoseconds;
static N el(C::time_point a, C::time_point b) { return std::chrono::duration_cast<N>(b - a); }
// the watch is compared with clock readings taken just before and just after each of its operations
template<class D> static void history(size_t len, bool slow) {
    C::time_point i0, i1, k0, k1; i0 = k0 = C::now(); Stopwatch<D> w; i1 = k1 = C::now(); bool zero = true;
    for (size_t t = 0; t < len; ++t) {
        if (slow) std::this_thread::sleep_for(std::chrono::microseconds(rnd(1500)));
        int op = int(rnd(4)); step(op == 0 ? "restart" : op == 1 ? "click" : op == 2 ? "read" : "copy");
        if (op == 0) { i0 = k0 = C::now(); Stopwatch<D>* r = &w.restart(); i1 = k1 = C::now(); expect(r == &w, "returns the watch"); zero = true; }
        else if (op == 1) { k0 = C::now(); Stopwatch<D>* r = &w.click(); k1 = C::now(); expect(r == &w, "returns the watch"); zero = false; }
        else if (op == 3) { Stopwatch<D> c(w); w = c; }
        D d = w.duration(); if (zero) expect(d == D::zero(), "zero right after a restart");
        expect(std::chrono::duration_cast<D>(el(i1, k0)) <= d || zero, "shorter than the time that passed"); expect(d <= std::chrono::duration_cast<D>(el(i0, k1)), "longer than the time that passed");
        double s = w.elapsed_seconds(), x = double(d.count()) * D::period::num / D::period::den; expect(s - x < 1e-12 + 1e-9 * x && x - s < 1e-12 + 1e-9 * x, "elapsed seconds are the duration"); expect(w.duration() == d && w.elapsed_seconds() == s, "reading changes nothing"); } }
void wit::run() { size_t n = thorough ? 3000 : 200; for (size_t i = 0; i < n; ++i) { begin("watch"); switch (i % 4) { case 0: history<Microseconds>(1 + rnd(12), i % 8 == 0); break; case 1: history<Milliseconds>(1 + rnd(8), true); break; case 2: history<std::chrono::nanoseconds>(1 + rnd(12), false); break; default: history<Seconds>(1 + rnd(8), false); } } 
    begin("past a second"); Stopwatch<Seconds> w; Stopwatch<Milliseconds> m; std::this_thread::sleep_for(std::chrono::milliseconds(1700)); w.click(); m.click(); same(w.duration().count(), 1l, "truncated to seconds"); same(w.elapsed_seconds(), 1.0, "elapsed seconds of a watch in seconds"); expect(m.elapsed_seconds() >= 1.7 && m.elapsed_seconds() < 5, "elapsed seconds of a watch in milliseconds"); }
