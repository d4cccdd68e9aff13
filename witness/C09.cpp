// flags: -D_GLIBCXX_ASSERTIONS
#include "wit.hpp"
#include "words.hpp"
using namespace wit; using namespace Helper;
static Bits operator+(Bits a, Bits const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void edits(Bits const& x) {
    { BinaryWord a = word(x); begin("word " + txt(x)); same(a.bytes(), (x.size() + 7) / 8, "bytes"); holds(a, x, "word"); }
    for (int v = 0; v < 2; ++v) { BinaryWord a = word(x); begin("append bit to " + txt(x)); a.append(bool(v)); holds(a, x + Bits{char(v)}, "word"); if (x.empty()) continue;
        BinaryWord b = word(x); b.set_back(v); Bits y = x; y.back() = v; holds(b, y, "word after set_back"); }
    for (int k : {-2147483647 - 1, -5, -1, 0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 2147483647, int(x.size()), int(x.size()) - 1, int(x.size()) + 1}) { BinaryWord a = word(x); begin("erase_prefix(" + str(k) + ") of " + txt(x)); a.erase_prefix(k); size_t g = k <= 0 ? 0 : std::min(size_t(k), x.size()); holds(a, Bits(x.begin() + g, x.end()), "word"); }
    { BinaryWord a = word(x); begin("append " + txt(x) + " to itself"); a.append(a); holds(a, x + x, "word"); a.append(a); holds(a, x + x + x + x, "word"); }
    { BinaryWord a = word(x); begin("append to tight " + txt(x)); a.shrink_to_fit(); a.append(a); holds(a, x + x, "word"); } }
void wit::run() {
    std::vector<Bits> all = small(5); for (auto& x : all) edits(x);
    for (auto& x : all) for (auto& y : all) { BinaryWord a = word(x), b = word(y); begin("append " + txt(y) + " to " + txt(x)); a.append(b); holds(a, x + y, "word"); holds(b, y, "appended word"); }
    for (int k = 0; k < (thorough ? 10000 : 1000); ++k) { Bits x = random_bits(rnd(300)), y = random_bits(rnd(300)); edits(x); BinaryWord a = word(x), b = word(y); begin("append " + txt(y) + " to " + txt(x)); a.append(b); holds(a, x + y, "word"); holds(b, y, "appended word"); }
    if (thorough) { begin("word of 2^31+5 bits"); cpu_limit = 3000; arm(); BinaryWord a; a.resize((size_t(1) << 31) + 5, false); a[0] = true; a[1] = true; a[3] = true; a.erase_prefix(1); same(a.size(), (size_t(1) << 31) + 4, "size"); same(bool(a[0]), true, "bit 0"); same(bool(a[2]), true, "bit 2"); } }
