#include "arrays.hpp"
template<class E> static void access(const char* ty, size_t n, int f) {
    begin(std::string(ty) + " access to an array of " + str(n) + (f == 1 ? " (moved from)" : f == 2 ? " (default)" : ""), n > 0);
    M m; Array<E> a = form<E>(f, m, n, 100); n = m.size(); Array<E> const& c = a;
    same(a.empty(), n == 0, "emptiness"); same(a.size(), n, "size");
    size_t pos[] = {0, 1, 2, 3, n - 1, n, n + 1, n * 2 + 1, size_t(1) << 32, (size_t(1) << 32) + (n ? n - 1 : 0), size_t(1) << 62, size_t(1) << 63, (size_t(1) << 63) + 1, ~size_t(0), ~size_t(0) - 1, ~size_t(0) - n, ~size_t(0) / sizeof(E) + 1};
    for (size_t i : pos) { std::string w = "position " + str(i);
        if (i < n) { same(val(a.at(i)), m[i], w); same(val(c.at(i)), m[i], w); expect(&a.at(i) == a.begin() + i && &c.at(i) == c.begin() + i, w + " is reached by checked access"); expect(&a[i] == &*(a.begin() + i) && &c[i] == &*(c.begin() + i), w + " is reached by index");
            a.at(i) = E(7); m[i] = 7; a[i] = E(8); m[i] = 8; }
        else { expect(throws_as<std::out_of_range>([&] { (void)a.at(i); }), w + " is refused"); expect(throws_as<std::out_of_range>([&] { (void)c.at(i); }), w + " is refused"); }
        holds(a, m, true, "after access"); }
    if (n) { expect(&a.front() == &a[0] && &c.front() == &a[0], "front is the first element"); expect(&a.back() == &a[n-1] && &c.back() == &a[n-1], "back is the last element"); }
    expect((size_t)(a.end() - a.begin()) == n && (size_t)(c.end() - c.begin()) == n, "iteration covers the elements"); }
void wit::run() { for (size_t n = 0; n < 40; ++n) for (int f = 0; f < 3; ++f) { access<Elem>("Elem", n, f); access<int>("int", n, f); if (n < 25) access<char>("char", n, f); } }
