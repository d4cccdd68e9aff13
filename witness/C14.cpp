#include "wit.hpp"
#include "container.hpp"
using namespace wit; using namespace Helper;
template<class T> static void one(const char* tn, std::vector<int> const& m, T (*mk)(int)) {
    begin(std::string(tn) + " " + vec(m).substr(0, 300)); std::vector<T> v; for (int x : m) v.push_back(mk(x)); std::vector<T> c = v; List<T> l(v);
    std::map<int,int> n; for (int x : m) ++n[x]; std::set<T> dup; for (auto& p : n) if (p.second > 1) dup.insert(mk(p.first));
    same(unique_elements(v), dup.empty(), "unique_elements"); same(unique_elements(l), dup.empty(), "unique_elements of a list"); expect(v == c && l == List<T>(c), "the sequence is unchanged");
    Set<T> r = duplicate_elements(v); if (!(r == Set<T>(dup.begin(), dup.end()))) fail("duplicate_elements: got " + str(r)); expect(duplicate_elements(l) == r, "duplicate_elements of a list"); expect(v == c && l == List<T>(c), "the sequence is unchanged"); same(unique_elements(v), r.empty(), "uniqueness agrees with the duplicates"); }
static void all(std::vector<int> const& m) { one<int>("ints", m, [](int x) { return x; }); one<std::string>("strings", m, [](int x) { return std::to_string(x); }); one<long>("longs", m, [](int x) { return long(x) << 33; }); one<double>("doubles", m, [](int x) { return x / 3.0; }); one<unsigned char>("characters", [&] { std::vector<int> w; for (int x : m) w.push_back(x & 255); return w; }(), [](int x) { return (unsigned char)x; }); one<std::pair<int,int>>("pairs", m, [](int x) { return std::make_pair(x / 2, x % 2); }); }
void wit::run() {
    std::vector<std::vector<int>> s{{}}; for (size_t i = 0; i < s.size(); ++i) if (s[i].size() < (thorough ? 6u : 5u)) for (int x = 0; x < 4; ++x) { auto t = s[i]; t.push_back(x); s.push_back(t); } for (auto& m : s) all(m);
    for (int k = 0; k < (thorough ? 4000 : 400); ++k) { std::vector<int> m(rnd(k % 5 ? 20 : 300)); int r = 1 + rnd(k % 3 ? 2 * m.size() + 5 : 100000); for (auto& x : m) x = int(rnd(r)) - r / 2; all(m); }
    for (size_t n : {2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4097}) for (int k = 0; k < 5; ++k) { std::vector<int> m(n); for (size_t i = 0; i < n; ++i) m[i] = k & 1 ? int(i) : int(n - i); if (k >= 1) m[n - 1] = m[k == 1 ? 0 : k == 2 ? n - 2 : rnd(n)]; if (k == 4) m[0] = m[n / 2]; all(m); } }
