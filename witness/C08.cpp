// flags: -D_GLIBCXX_ASSERTIONS
#include "wit.hpp"
#include "words.hpp"
using namespace wit; using namespace Helper;
static void pair_of(Bits const& x, Bits const& y) {
    BinaryWord a = word(x), b = word(y); begin("words " + txt(x) + " and " + txt(y), !x.empty() && !y.empty());
    bool less = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()), pre = x.size() <= y.size() && std::equal(x.begin(), x.end(), y.begin()), sub = txt(y).find(txt(x)) != std::string::npos;
    same(a < b, less, "<"); same(a.is_prefix(b), pre, "is_prefix"); same(a.is_subword(b), sub, "is_subword"); holds(a, x, "left operand"); holds(b, y, "right operand"); }
static void self(Bits const& x) { BinaryWord a = word(x); begin("word " + txt(x) + " and itself"); same(a < a, false, "<"); same(a.is_prefix(a), true, "is_prefix"); same(a.is_subword(a), true, "is_subword"); holds(a, x, "word"); }
void wit::run() {
    std::vector<Bits> all = small(6); for (auto& x : all) self(x); for (auto& x : all) for (auto& y : all) pair_of(x, y);
    for (int k = 0; k < (thorough ? 60000 : 6000); ++k) { Bits x = random_bits(rnd(150)), y;
        switch (rnd(5)) { case 0: y = x; for (size_t i = rnd(130); i; --i) y.push_back(rnd(2)); break; case 1: y = random_bits(rnd(130)); y.insert(y.end(), x.begin(), x.end()); for (size_t i = rnd(3) ? rnd(70) : 0; i; --i) y.push_back(rnd(2)); break;
          case 2: y = x; if (!y.empty()) { size_t i = rnd(y.size()); y[i] = !y[i]; } break; case 3: y = x; for (size_t i = rnd(y.size() + 1); i; --i) y.push_back(rnd(2)); if (!y.empty()) { size_t i = rnd(y.size()); y[i] = !y[i]; } break; default: y = random_bits(rnd(150)); }
        pair_of(x, y); pair_of(y, x); }
    // periodic words: long partial matches before the only occurrence
    for (size_t p = 1; p < 6; ++p) for (size_t n = 1; n < 70; n += 3) for (size_t m = n; m < 140; m += 7) { Bits x, y; for (size_t i = 0; i < n; ++i) x.push_back(i % p == 0); x.back() = !x.back(); for (size_t i = 0; i < m; ++i) y.push_back(i % p == 0); pair_of(x, y); for (size_t i = 0; i < n; ++i) y.push_back(x[i]); pair_of(x, y); y.pop_back(); pair_of(x, y); }
}
