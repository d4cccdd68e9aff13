#include "arrays.hpp"
void wit::run() {
    all<Elem>("Elem", false, true); all<int>("int", false, false);
    // more elements than memory can address
    size_t big[] = {~size_t(0), ~size_t(0) / 2, ~size_t(0) / sizeof(Elem), ~size_t(0) / sizeof(Elem) + 1, ~size_t(0) / sizeof(Elem) + 2, (size_t(1) << 63) / sizeof(Elem) + 1, ~size_t(0) / sizeof(Elem) - 1, (size_t(1) << 60) + 1, (size_t(1) << 61) + 1};
    for (size_t n : big) for (int op = 0; op < 6; ++op) { begin("request for " + str(n) + " elements, operation " + str(op));
        noleak([&] { Array<Elem> a(3, Elem(1)); bool r = false;
            try { if (op == 0) Array<Elem> b(n); if (op == 1) Array<Elem> b(n, Elem(1)); if (op == 2) Array<Elem> b(n, Uninitialised()); if (op == 3) a.resize(n); if (op == 4) a.resize(n, Elem(2)); if (op == 5) a.reallocate(n); }
            catch (std::bad_alloc const&) { r = true; }
            expect(r, "a request for more elements than memory can address is refused"); for (size_t i = 0; i < a.size(); ++i) a.begin()[i].alive("used"); });
        same(Tracked::live.size(), size_t(0), "elements left over"); }
}
