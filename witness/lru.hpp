#include "wit.hpp"
#include "lru_cache.hpp"
using namespace wit;
using Cache = Helper::LRUCache<Tracked,Tracked>;
struct Model { size_t n; std::vector<std::pair<int,int>> e;   // most recent first
    int pos(int k) const { for (size_t i = 0; i < e.size(); ++i) if (e[i].first == k) return (int)i; return -1; } };
inline void compare(Cache& c, Model const& m, int keys, bool ranks) {
    same(c.current_size(), m.e.size(), "number of entries"); same(c.maximum_size(), m.n, "maximum size");
    for (int k = 0; k < keys; ++k) { int p = m.pos(k);
        same(c.has_label(Tracked(k)), p >= 0, "presence of label " + str(k));
        if (ranks && p >= 0) same(c.age(Tracked(k)), size_t(p), "age of label " + str(k)); } }
