#include "wit.hpp"
#include "randomiser.hpp"
#include <limits>
#include <cmath>
using namespace wit; using namespace Helper;
template<class R, class T> static void draws(T lo, T hi, size_t n) {
    begin("bounds " + str(lo) + " and " + str(hi) + " of size " + str(sizeof(T)));
    R r(lo, hi); RandomiserInterface<T>& i = r;
    for (size_t k = 0; k < n; ++k) { T x = k % 2 ? i.get() : r.get(); if (!(lo <= x && x <= hi)) fail("draw " + str(k) + " is " + str(x)); }

    R c(r); for (size_t k = 0; k < 5; ++k) { T x = c.get(); if (!(lo <= x && x <= hi)) fail("draw of a copy is " + str(x)); } }
template<class T> static void ints(size_t n) { using L = std::numeric_limits<T>; using R = UniformIntRandomiser<T>;
    draws<R, T>(L::min(), L::max(), 50); draws<R, T>(L::min(), L::min(), 5); draws<R, T>(L::max(), L::max(), 5); draws<R, T>(L::max() - 1, L::max(), 200); draws<R, T>(L::min(), L::min() + 1, 200); draws<R, T>(0, 0, 5); draws<R, T>(0, 1, 200); draws<R, T>(0, 3, 300);
    if (L::is_signed) { draws<R, T>(T(-1), T(1), 200); draws<R, T>(T(-7), T(-5), 200); draws<R, T>(T(-3), T(12), 200); }
    for (size_t k = 0; k < n; ++k) { T a = T(rng()), b = T(rng()); if (rnd(3) == 0) b = T(a + T(rnd(20))); if (b < a) std::swap(a, b); draws<R, T>(a, b, 40); } }
template<class T> static void reals(size_t n) { using R = UniformRealRandomiser<T>; using L = std::numeric_limits<T>;
    draws<R, T>(0, 1, 500); draws<R, T>(0, 0, 5); draws<R, T>(-1, 1, 300); draws<R, T>(-3, T(-2.5), 300); draws<R, T>(T(1), std::nextafter(T(1), T(2)), 300); draws<R, T>(0, L::denorm_min(), 300); draws<R, T>(0, L::max(), 100); draws<R, T>(L::lowest() / 2, L::max() / 2, 100); draws<R, T>(T(1e6), T(1e6 + 0.25), 300);
    for (size_t k = 0; k < n; ++k) { T a = std::ldexp(T(rnd(2000001)) - 1000000, int(rnd(60)) - 30), b = std::ldexp(T(rnd(2000001)) - 1000000, int(rnd(60)) - 30); if (b < a) std::swap(a, b); draws<R, T>(a, b, 40); } }
void wit::run() { size_t n = thorough ? 20000 : 300; ints<int>(n); ints<long>(n); ints<unsigned>(n); ints<unsigned long>(n); ints<short>(n); reals<double>(n); reals<float>(n); }
