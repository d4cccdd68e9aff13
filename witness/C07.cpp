#include "wit.hpp"
#include "array.hpp"
using namespace Helper; using namespace wit;
static void one(size_t nmax, std::vector<size_t> const& v) {
    begin("complement of " + vec(v) + " below " + str(nmax), !v.empty());
    Array<size_t> a(v.begin(), v.end()); Array<size_t> r = complement(nmax, a);
    std::vector<size_t> m; for (size_t x = 0, k = 0; x < nmax; ++x) if (k < v.size() && v[k] == x) ++k; else m.push_back(x);
    same(r.size(), m.size(), "length"); for (size_t i = 0; i < m.size(); ++i) same(r[i], m[i], "entry " + str(i));
    same(a.size(), v.size(), "length of the argument"); for (size_t i = 0; i < v.size(); ++i) same(a[i], v[i], "argument"); }
void wit::run() {
    for (size_t n = 0; n <= (thorough ? 14u : 11u); ++n) for (size_t s = 0; s < (size_t(1) << n); ++s) { std::vector<size_t> v; for (size_t i = 0; i < n; ++i) if (s >> i & 1) v.push_back(i); one(n, v); }
    for (int k = 0; k < 200; ++k) { size_t n = rnd(k % 20 == 0 ? 70000 : 400); unsigned d = 1 + rnd(5); std::vector<size_t> v; for (size_t i = 0; i < n; ++i) if (rnd(d) == 0) v.push_back(i); one(n, v); } }
