// Runtime monitors for the contracts: the post-conditions evaluated on concrete inputs against the real code.
// They look for a failing input when an obligation is not discharged, and sample the assumed contracts otherwise.
#ifndef WIT_HPP
#define WIT_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <sstream>
#include <iostream>
#include <functional>
#include <vector>
#include <map>
#include <set>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <random>
#include <new>
#include <sanitizer/asan_interface.h>
namespace wit {
inline std::string cur;
inline unsigned long long cases = 0, nontrivial = 0; inline unsigned long long seed = 1; inline bool thorough = false;
inline std::mt19937_64 rng;
inline std::vector<std::string> samples;
inline int cpu_limit = 30; inline int own_alloc = 0;   // own_alloc: storage of the monitor itself, never refused
inline void put(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
inline void died() { put("\nFAIL the code under test ended abnormally (see the error output) | "); put(cur.c_str()); put("\n"); }
inline void onsig(int s) { put(s == SIGVTALRM ? "\nFAIL does not return (CPU limit of the monitor) | " : "\nFAIL ended by a signal | "); put(cur.c_str()); put("\n"); _exit(1); }
inline void arm() { struct itimerval t{{0, 0}, {cpu_limit, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
inline void begin(std::string d, bool nt = true) {
    if (!cur.empty() && (samples.size() < 2 || (samples.size() < 6 && cases % 997 == 0))) samples.push_back(cur);
    cur = std::move(d); ++cases; nontrivial += nt; if ((cases & 63) == 1) arm();
}
// `history` grows the description of the running case
inline void step(std::string const& s) { cur += "; "; cur += s; }
[[noreturn]] inline void fail(std::string const& what) { std::fflush(stdout); put("\nFAIL "); put(what.c_str()); put(" | "); put(cur.c_str()); put("\n"); _exit(1); }
inline void expect(bool b, std::string const& what) { if (!b) fail(what); }
template<class A, class B> void same(A const& a, B const& b, std::string const& what) {
    if (!(a == b)) { if constexpr (requires(std::ostream& o) { o << a; o << b; }) { std::ostringstream s; s << what << ": got " << a << ", expected " << b; fail(s.str()); } else fail(what); } }
template<class F> bool throws(F f) { try { f(); } catch (std::exception const&) { return true; } return false; }
template<class X, class F> bool throws_as(F f) { try { f(); } catch (X const&) { return true; } catch (...) { return false; } return false; }
inline unsigned long long rnd(unsigned long long n) { return rng() % n; }
template<class T> std::string str(T const& t) { std::ostringstream s; s << t; return s.str(); }
template<class T> std::string vec(std::vector<T> const& t) { std::ostringstream s; s << "["; for (size_t i = 0; i < t.size(); ++i) s << (i ? "," : "") << t[i]; s << "]"; return s.str(); }
// element type with identity: live instances are counted, memory it occupies is recorded
struct Tracked {
    static inline std::map<const void*, int> live; static inline long budget = -1;   // budget: copies until one throws, -1 never
    int v; int* own;
    static void tick() { if (budget == 0) { budget = -1; throw std::runtime_error("copy refused"); } if (budget > 0) --budget; }
    void born() { struct G { G() { ++own_alloc; } ~G() { --own_alloc; } } g; if (!live.emplace(this, 1).second) fail("an element is constructed on top of a live one"); own = new int(v); }
    Tracked() : v(0) { tick(); born(); }
    Tracked(int x) : v(x) { tick(); born(); }
    Tracked(Tracked const& o) : v((o.alive("copied from"), o.v)) { tick(); born(); }
    Tracked(Tracked&& o) : v((o.alive("moved from"), o.v)) { tick(); born(); }
    void alive(const char* w) const { if (!live.count(this)) fail(std::string("an element that does not exist is ") + w); }
    Tracked& operator=(Tracked const& o) { alive("assigned to"); o.alive("assigned from"); v = o.v; *own = v; return *this; }
    ~Tracked() { if (!live.erase(this)) { put("\nFAIL an element is destroyed that does not exist | "); put(cur.c_str()); put("\n"); _exit(1); } delete own; }
    friend bool operator==(Tracked const& a, Tracked const& b) { a.alive("compared"); b.alive("compared"); return a.v == b.v; }
    friend bool operator!=(Tracked const& a, Tracked const& b) { return !(a == b); }
    friend bool operator<(Tracked const& a, Tracked const& b) { a.alive("compared"); b.alive("compared"); return a.v < b.v; }
    friend bool operator>(Tracked const& a, Tracked const& b) { return b < a; }
    friend bool operator<=(Tracked const& a, Tracked const& b) { return !(b < a); }
    friend bool operator>=(Tracked const& a, Tracked const& b) { return !(a < b); }
    friend std::ostream& operator<<(std::ostream& os, Tracked const& t) { return os << t.v; }
    friend std::istream& operator>>(std::istream& is, Tracked& t) { int x; if (is >> x) t.v = x; return is; }
};
void run();
}
#ifdef WIT_ALLOC
// storage accounting: every block obtained is released exactly once, by the matching operation; requests can be refused
namespace wit { inline long blocks = 0; inline long refuse = -1; inline size_t largest = size_t(1) << 32;
inline void* obtain(size_t n, unsigned long kind) {
    if (n > largest) throw std::bad_alloc();
    if (refuse == 0 && !own_alloc) { refuse = -1; throw std::bad_alloc(); }
    if (refuse > 0 && !own_alloc) --refuse;
    unsigned long* p = (unsigned long*)malloc(n + 16); if (!p) throw std::bad_alloc();
    p[0] = 0xfeedbeefcafe0000ul + kind; p[1] = n; ++blocks; return p + 2; }
inline void release(void* q, unsigned long kind) {
    if (!q) return;
    unsigned long* p = (unsigned long*)q - 2;
    if (p[0] != 0xfeedbeefcafe0000ul + kind) { put("\nFAIL storage is released by the wrong operation | "); put(cur.c_str()); put("\n"); _exit(1); }
    p[0] = 0; --blocks; free(p); }
}
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
void* operator new(size_t n) { return wit::obtain(n, 1); }
void* operator new[](size_t n) { return wit::obtain(n, 2); }
void operator delete(void* p) noexcept { wit::release(p, 1); }
void operator delete[](void* p) noexcept { wit::release(p, 2); }
void operator delete(void* p, size_t) noexcept { wit::release(p, 1); }
void operator delete[](void* p, size_t) noexcept { wit::release(p, 2); }
namespace wit {
// f must leave no storage behind; nor when the k-th request for storage is refused
template<class F> void noleak(F f, bool inject = false) {
    cur.reserve(1 << 12); f();
    long b = blocks; f(); if (blocks != b) fail(str(blocks - b) + " blocks of storage are not released");
    if (inject) for (long k = 0; k < 40; ++k) { b = blocks; refuse = k; bool hit = false; try { f(); } catch (std::bad_alloc const&) { hit = true; } bool used = refuse < 0; refuse = -1;
        if (blocks != b) fail(str(blocks - b) + " blocks of storage are not released after request " + str(k) + " was refused"); if (!used) break; (void)hit; } }
}
#endif
int main(int argc, char** argv) {
    if (argc > 1) wit::seed = std::strtoull(argv[1], nullptr, 10);
    if (argc > 2) wit::thorough = std::string(argv[2]) == "thorough";
    wit::rng.seed(wit::seed);
    __asan_set_death_callback(wit::died);
    signal(SIGVTALRM, wit::onsig); signal(SIGABRT, wit::onsig); wit::arm();
    try { wit::run(); } catch (std::exception const& e) { wit::fail(std::string("unexpected exception ") + e.what()); } catch (...) { wit::fail("unexpected exception"); }
    for (auto const& s : wit::samples) std::printf("SAMPLE %s\n", s.substr(0, 300).c_str());
    std::printf("DONE cases=%llu nontrivial=%llu\n", wit::cases, wit::nontrivial);
    return 0;
}
#endif
