#include "wit.hpp"
#include <cassert>
#include <memory>
#include <algorithm>
#include <execinfo.h>
#include <dlfcn.h>
#include <cxxabi.h>
using namespace wit;
// stand-ins for the functions of the C library, over a made-up stack
struct Made { bool known, named, dem; };
static std::vector<Made> frames; static std::set<void*> held; static int captured; static char pool[4096]; static std::vector<std::string> names;
static size_t index_of(void const* a) { size_t i = size_t((char const*)a - pool); if (!((char const*)a >= pool) || i >= size_t(captured)) fail("a frame that was not captured is looked at"); return i; }
extern "C" int fake_backtrace(void** buf, int n) { int k = std::min<int>(n, int(frames.size())); for (int i = 0; i < k; ++i) buf[i] = pool + i; captured = k; return k; }
extern "C" char** fake_backtrace_symbols(void* const* buf, int n) { expect(n >= 0 && n <= captured, "symbols of more frames than captured"); char** r = (char**)malloc(sizeof(char*) * size_t(n) + 1); for (int i = 0; i < n; ++i) { size_t k = index_of(buf[i]); r[i] = names[k].data(); } held.insert(r); return r; }
extern "C" int fake_dladdr(void const* a, Dl_info* info) { Made& m = frames[index_of(a)]; if (!m.known) { memset((void*)info, 0xa5, sizeof *info); return 0; } info->dli_fname = "file"; info->dli_fbase = pool; info->dli_sname = m.named ? "sname" : nullptr; info->dli_saddr = m.named ? pool : nullptr; return 1; }
namespace __cxxabiv1 { extern "C" char* fake_demangle(char const* nm, char* buf, size_t* len, int* status) { expect(nm, "demangling of a null name"); expect(!buf, "demangling into a buffer"); size_t k = 0; bool mine = false; for (; k < names.size(); ++k) if (names[k].c_str() == nm) { mine = true; break; } if (!(mine ? frames[k].dem : true)) { if (status) *status = -2; return nullptr; } char* r = strdup("demangled"); held.insert(r); if (status) *status = 0; if (len) *len = 9; return r; } }
extern "C" void fake_free(void* p) { if (!p) return; if (!held.erase(p)) fail("storage is released that is not held"); free(p); }
namespace std { using ::fake_free; }
#define ENABLE_STACK_TRACE
#define backtrace fake_backtrace
#define backtrace_symbols fake_backtrace_symbols
#define dladdr fake_dladdr
#define __cxa_demangle fake_demangle
#define free fake_free
#include "../src/stack_trace.cpp"
#undef free
static void trace(std::vector<Made> f) {
    std::string d = "frames "; for (auto& m : f) d += m.known ? m.named ? m.dem ? "d" : "n" : m.dem ? "D" : "s" : m.dem ? "U" : "u"; begin(d.substr(0, 200)); frames = f; captured = 0; names.clear(); for (size_t i = 0; i < f.size(); ++i) names.push_back("symbol" + str(i));
    std::ostringstream out; std::streambuf* b = std::cerr.rdbuf(out.rdbuf()); Helper::stack_trace(); bool ok = std::cerr.good(); auto fl = std::cerr.flags(); std::cerr.rdbuf(b); std::cerr.clear();
    expect(ok, "the error stream is not usable afterwards"); std::string s = out.str(); same(std::count(s.begin(), s.end(), '\n'), long(captured), "lines written"); expect(s.empty() || s.back() == '\n', "the last line is complete"); expect(fl & std::ios::dec, "format kept"); same(held.size(), size_t(0), "storage still held"); }
void wit::run() {
    trace({}); std::vector<Made> all; for (int k = 0; k < 8; ++k) { all.push_back({bool(k & 1), bool(k & 2), bool(k & 4)}); trace({all.back()}); } trace(all);
    for (size_t n : {1, 2, 127, 128, 129, 200, 1000}) { std::vector<Made> f(n, Made{true, true, false}); trace(f); }
    size_t n = thorough ? 3000 : 200; for (size_t i = 0; i < n; ++i) { std::vector<Made> f(rnd(20)); for (auto& m : f) m = {rnd(3) > 0, rnd(3) > 0, rnd(2) > 0}; trace(f); } }
