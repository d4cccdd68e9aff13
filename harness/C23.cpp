// Stopwatches of all the units the library names, and of finer, coarser and floating-point ones.
#include <new>
#include "stopwatch.hpp"
#include "opaque.hpp"
using namespace Helper;
using Nano = std::chrono::nanoseconds; using Minutes = std::chrono::minutes; using Real = std::chrono::duration<double>; using Thirds = std::chrono::duration<long, std::ratio<1,3>>;
template<class D> D vf_dur(Stopwatch<D> const& w) { return w.duration(); }
#define VF_WATCH(U) extern "C" { \
void vf_make_##U(Stopwatch<U>* at) { new (at) Stopwatch<U>(); } \
Stopwatch<U>* vf_click_##U(Stopwatch<U>& w) { return &w.click(); } \
Stopwatch<U>* vf_restart_##U(Stopwatch<U>& w) { return &w.restart(); } \
U::rep vf_duration_##U(Stopwatch<U> const& w) { return w.duration().count(); } \
double vf_seconds_##U(Stopwatch<U> const& w) { return w.elapsed_seconds(); } \
void vf_copy_##U(Stopwatch<U>* at, Stopwatch<U> const& w) { new (at) Stopwatch<U>(w); } }
VF_WATCH(Seconds) VF_WATCH(Milliseconds) VF_WATCH(Microseconds) VF_WATCH(Nano) VF_WATCH(Minutes) VF_WATCH(Real) VF_WATCH(Thirds)
