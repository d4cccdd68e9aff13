#define WIT_ALLOC
#include "wit.hpp"
#include "array.hpp"
using namespace wit; using namespace Helper;
template<class E> int val(E const& e) { if constexpr (requires { e.v; }) return e.v; else return (int)e; }
template<class E> struct Pool {
    using S = SharedArray<E>; struct Own { S* a; int id; };
    std::vector<Own> o; std::map<int, std::vector<int>> data; int next = 0;
    void check() {
        for (auto& x : o) { auto& m = data[x.id]; S& a = *x.a; S const& c = a; same(a.size(), m.size(), "size"); expect((size_t)(a.end() - a.begin()) == m.size() && (size_t)(c.end() - c.begin()) == m.size(), "iteration covers the elements");
            for (size_t i = 0; i < m.size(); ++i) { same(val(a[i]), m[i], "element " + str(i)); expect(&a[i] == a.begin() + i && &c[i] == c.begin() + i, "index and iteration agree"); } }
        for (auto& x : o) for (auto& y : o) if (data[x.id].size()) expect((x.a->begin() == y.a->begin()) == (x.id == y.id), "copies refer to the same elements, others do not");
        size_t n = 0; std::set<int> ids; for (auto& x : o) if (ids.insert(x.id).second) n += data[x.id].size();
        if constexpr (std::is_base_of_v<Tracked, E>) same(Tracked::live.size(), n, "elements in existence"); }
    int made(std::vector<int> m, S* a) { own_alloc++; data[next] = m; o.push_back({a, next}); own_alloc--; return next++; }
    void create(size_t n, int how) { std::vector<int> m; ++own_alloc; std::string d = "create " + str(n) + " how " + str(how); step(d); --own_alloc;
        if (how == 0) { S* a = new S(n); for (size_t i = 0; i < n; ++i) { (*a)[i] = E(int(i)); m.push_back(int(i)); } made(m, a); }
        else if (how == 1) { m.assign(n, 7); made(m, new S(n, E(7))); }
        else { m = {1, 2, 3}; made(m, new S({E(1), E(2), E(3)})); } }
    void copy(size_t i) { step("copy " + str(i)); o.push_back({new S(*o[i].a), o[i].id}); }
    void assign(size_t i, size_t j) { step("assign " + str(i) + "<-" + str(j)); S& r = (*o[i].a = *o[j].a); expect(&r == o[i].a, "assignment returns its target"); o[i].id = o[j].id; }
    void write(size_t i, size_t p, int v) { step("write " + str(i) + "[" + str(p) + "]=" + str(v)); (*o[i].a)[p] = E(v); data[o[i].id][p] = v; }
    void drop(size_t i) { step("destroy " + str(i)); delete o[i].a; o.erase(o.begin() + i); }
};
template<class E> void history(int k, int len) {
    begin("history " + str(k), true); long b0 = blocks; { Pool<E> p;
    for (int i = 0; i < len; ++i) { size_t n = p.o.size(); int c = rnd(10);
        if (n == 0 || (c == 0 && n < 8)) p.create(rnd(5), rnd(3)); else if (c < 3 && n < 8) p.copy(rnd(n)); else if (c < 6) p.assign(rnd(n), rnd(n)); else if (c < 8) { size_t j = rnd(n); if (size_t s = p.data[p.o[j].id].size()) p.write(j, rnd(s), rnd(1000)); } else p.drop(rnd(n));
        p.check(); }
    while (p.o.size()) { p.drop(rnd(p.o.size())); p.check(); } cur = ""; cur.shrink_to_fit(); }
    (void)b0; }
template<class E> void releases() {
    for (int how = 0; how < 3; ++how) for (size_t n = 0; n < 5; ++n) for (int op = 0; op < 6; ++op) { begin("release of " + str(n) + " elements, how " + str(how) + " operation " + str(op));
        noleak([&] { using S = SharedArray<E>; auto mk = [&] { return how == 0 ? S(n) : how == 1 ? S(n, E(3)) : S({E(1), E(2)}); };
            S a = mk(); if (op == 1) { S b(a); } if (op == 2) { S b(a); a = b; b = a; } if (op == 3) { S b = mk(); a = b; } if (op == 4) { S& r = a; a = r; } if (op == 5) { S b = mk(); S c(b); b = a; c = b; } });
        if constexpr (std::is_base_of_v<Tracked, E>) same(Tracked::live.size(), size_t(0), "elements left over"); } }
void wit::run() { releases<Tracked>(); releases<int>(); int n = thorough ? 20000 : 1500; for (int k = 0; k < n; ++k) { history<Tracked>(k, 5 + rnd(40)); if (k % 4 == 0) history<int>(k, 30); } }
