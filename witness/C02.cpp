#include "lru.hpp"
// every label inserted remembers the value given with it
static void play(size_t n, std::vector<int> const& ops, int keys) {
    begin("LRUCache(" + str(n) + ")", ops.size() > 1);
    Cache c(n); Model m{n, {}}; int next = 1000;
    auto values = [&]{ auto e = m.e; for (auto it = e.rbegin(); it != e.rend(); ++it) same(c.get(Tracked(it->first)).v, it->second, "value of label " + str(it->first)); };
    for (int o : ops) { int k = o / 4; int p = m.pos(k);
        if (o % 4 == 0 || o % 4 == 3) {
            if (o % 4 == 3) { // the value given is a reference into the cache, of the label in the middle of the order
                if (m.e.empty()) continue; auto src = m.e[m.e.size() - 1 - (size_t)(k % 2 && m.e.size() > 1)]; step("get(" + str(src.first) + ") and put(" + str(k) + ", that reference)");
                Tracked const& ref = c.get(Tracked(src.first)); int q = m.pos(src.first); m.e.erase(m.e.begin() + q); m.e.insert(m.e.begin(), src);
                // make it the least recent again so that it is the entry put drops
                for (size_t i = m.e.size(); i-- > 1;) { auto x = m.e[m.e.size() - 1]; c.get(Tracked(x.first)); m.e.pop_back(); m.e.insert(m.e.begin(), x); }
                p = m.pos(k); if (p >= 0) { expect(throws([&]{ c.put(Tracked(k), ref); }), "put of a present label is rejected"); }
                else { c.put(Tracked(k), ref); if (m.e.size() == n) m.e.pop_back(); m.e.insert(m.e.begin(), {k, src.second}); } }
            else { int v = next++; step("put(" + str(k) + "," + str(v) + ")");
                if (p >= 0) expect(throws([&]{ c.put(Tracked(k), Tracked(v)); }), "put of a present label is rejected");
                else { c.put(Tracked(k), Tracked(v)); if (m.e.size() == n) m.e.pop_back(); m.e.insert(m.e.begin(), {k, v}); } } }
        else if (o % 4 == 1) { step("get(" + str(k) + ")");
            if (p < 0) expect(throws([&]{ c.get(Tracked(k)); }), "get of an absent label is rejected");
            else { same(c.get(Tracked(k)).v, m.e[p].second, "value of label " + str(k)); auto x = m.e[p]; m.e.erase(m.e.begin() + p); m.e.insert(m.e.begin(), x); } }
        else { step("age(" + str(k) + ")"); if (p < 0) expect(throws([&]{ c.age(Tracked(k)); }), "age of an absent label is rejected"); else c.age(Tracked(k)); }
        compare(c, m, keys, true); }
    step("read all"); values();
}
void wit::run() {
    begin("LRUCache(0)"); expect(throws([]{ Cache c(0); }), "capacity zero is rejected");
    for (size_t n = 1; n <= 2; ++n) for (int len = 1; len <= 4; ++len) { int keys = 3; std::vector<int> o(len, 0);
        for (;;) { play(n, o, keys); int i = 0; while (i < len && ++o[i] == 4 * keys) o[i++] = 0; if (i == len) break; } }
    for (int r = 0; r < (thorough ? 4000 : 400); ++r) { int keys = 2 + rnd(12); size_t n = 1 + rnd(keys); std::vector<int> o; for (int i = 0; i < 60; ++i) o.push_back(rnd(4 * keys)); play(n, o, keys); }
    begin("end of all caches"); same(Tracked::live.size(), size_t(0), "values left over when every cache is gone");
    for (size_t m : {size_t(127), size_t(128), size_t(255), size_t(256), size_t(257), size_t(32768), size_t(65535), size_t(65536), size_t(65537), size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0)}) { begin("LRUCache(" + str(m) + ") with three labels"); Helper::LRUCache<int,int> c(m); same(c.maximum_size(), m, "maximum size"); same(c.current_size(), size_t(0), "number of entries");
        for (int i = 0; i < 3; ++i) c.put(i, 10 * i); same(c.current_size(), size_t(3), "number of entries"); for (int i = 0; i < 3; ++i) { expect(c.has_label(i), "a label is kept while there is room"); same(c.age(i), size_t(2 - i), "age of " + str(i)); } same(c.get(0), 0, "value"); same(c.age(0), size_t(0), "age after get"); same(c.age(1), size_t(2), "age of an older label after get"); same(c.maximum_size(), m, "maximum size"); }
}
