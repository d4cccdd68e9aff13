#include "lru.hpp"
static void play(size_t n, std::vector<int> const& ops, int keys) {
    begin("LRUCache(" + str(n) + ")", ops.size() > 1);
    Cache c(n); Model m{n, {}};
    for (int o : ops) { int k = o / 2; int p = m.pos(k);
        if (o % 2 == 0) { step("put(" + str(k) + ")"); if (p >= 0) { expect(throws([&]{ c.put(Tracked(k), Tracked(k)); }), "put of a present label is rejected"); }
            else { c.put(Tracked(k), Tracked(100 + k)); if (m.e.size() == n) m.e.pop_back(); m.e.insert(m.e.begin(), {k, 100 + k}); } }
        else { step("get(" + str(k) + ")"); if (p < 0) expect(throws([&]{ c.get(Tracked(k)); }), "get of an absent label is rejected");
            else { c.get(Tracked(k)); auto x = m.e[p]; m.e.erase(m.e.begin() + p); m.e.insert(m.e.begin(), x); } }
        compare(c, m, keys, true); }
}
void wit::run() {
    for (size_t n = 1; n <= 3; ++n) for (int len = 1; len <= (thorough ? 6 : 5); ++len) { int keys = 3; std::vector<int> o(len, 0);
        for (;;) { play(n, o, keys); int i = 0; while (i < len && ++o[i] == 2 * keys) o[i++] = 0; if (i == len) break; } }
    for (int r = 0; r < (thorough ? 4000 : 400); ++r) { int keys = 2 + rnd(12); size_t n = 1 + rnd(keys); std::vector<int> o; for (int i = 0; i < 60; ++i) o.push_back(rnd(2 * keys)); play(n, o, keys); }
    // many entries
    { size_t n = 700; begin("LRUCache(700) with labels 0..999 put in order"); Helper::LRUCache<int,int> c(n);
      for (int i = 0; i < 1000; ++i) { c.put(i, i); same(c.current_size(), std::min<size_t>(n, i + 1), "number of entries"); same(c.age(i), size_t(0), "age of the newest"); int o = std::max(0, i - (int)n + 1); same(c.age(o), size_t(i - o), "age of the oldest after put(" + str(i) + ")"); if (o) expect(!c.has_label(o - 1), "the oldest is replaced"); }
      c.get(600); for (int i = 300; i < 1000; ++i) same(c.age(i), size_t(i == 600 ? 0 : i > 600 ? 999 - i + 1 : 999 - i), "age of " + str(i) + " after get(600)"); }
    for (size_t m : {size_t(127), size_t(128), size_t(255), size_t(256), size_t(257), size_t(32768), size_t(65535), size_t(65536), size_t(65537), size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0)}) { begin("LRUCache(" + str(m) + ") with three labels"); Helper::LRUCache<int,int> c(m); same(c.maximum_size(), m, "maximum size"); same(c.current_size(), size_t(0), "number of entries");
        for (int i = 0; i < 3; ++i) c.put(i, 10 * i); same(c.current_size(), size_t(3), "number of entries"); for (int i = 0; i < 3; ++i) { expect(c.has_label(i), "a label is kept while there is room"); same(c.age(i), size_t(2 - i), "age of " + str(i)); } same(c.get(0), 0, "value"); same(c.age(0), size_t(0), "age after get"); same(c.age(1), size_t(2), "age of an older label after get"); same(c.maximum_size(), m, "maximum size"); }
}
