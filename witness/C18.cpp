#define WIT_ALLOC
#include "wit.hpp"
#include "handle.hpp"
using namespace wit; using namespace Helper;
struct Iface { static inline long clones = 0, alive = 0; Iface() { ++alive; } Iface(Iface const&) { ++alive; } virtual ~Iface() { --alive; } virtual Iface* clone() const = 0; virtual Iface* _copy() const = 0; virtual Iface* _move() = 0; virtual int get() const = 0; virtual void set(int) = 0; };
struct Conc : Iface { int v; explicit Conc(int x) : v(x) { } Iface* clone() const override { ++clones; return new Conc(*this); } Iface* _copy() const override { return new Conc(*this); } Iface* _move() override { return new Conc(std::move(*this)); } int get() const override { return v; } void set(int x) override { v = x; } };
struct Wide : Iface { double pad[4]; int v; explicit Wide(int x) : v(x) { } Iface* clone() const override { ++clones; return new Wide(*this); } Iface* _copy() const override { return new Wide(*this); } Iface* _move() override { return new Wide(std::move(*this)); } int get() const override { return v; } void set(int x) override { v = x; } };
using H = Handle<Iface>;
static Iface* mut(H& h, int k) { switch (k) { case 0: return &h.reference(); case 1: return h.pointer(); case 2: return h.raw_pointer(); case 3: return &h.ref(); case 4: return h.ptr(); default: return h.managed_pointer().get(); } }
static Iface const* look(H const& h, int k) { switch (k) { case 0: return &h.const_reference(); case 1: return &h.reference(); case 2: return h.const_pointer(); case 3: return h.pointer(); case 4: return h.raw_const_pointer(); case 5: return h.raw_pointer(); case 6: return &h.ref(); case 7: return h.ptr(); case 8: return h.managed_const_pointer().get(); case 9: return h.managed_pointer().get(); default: return &static_cast<Iface const&>(h); } }
// model: each handle has an object, an object has a value
static void history(size_t len) {
    std::vector<H> hs; std::vector<int> obj; std::vector<int> val; long base = Iface::alive;
    auto add = [&](int v, int how) { std::string s = "new(" + str(v) + "," + str(how) + ")"; step(s); switch (how % 6) { case 0: { Conc c(v); hs.push_back(H(c)); c.v = -1; break; } case 1: hs.push_back(H(Wide(v))); break; case 2: hs.push_back(H(new Conc(v))); break; case 3: hs.push_back(H(std::shared_ptr<Iface>(new Wide(v)))); break; case 4: { Conc c(v); Iface const& i = c; hs.push_back(H(i)); c.v = -1; break; } default: { Wide c(v); Iface& i = c; hs.push_back(H(std::move(i))); } } obj.push_back(int(val.size())); val.push_back(v); };
    add(rnd(100), rnd(6)); 
    for (size_t t = 0; t < len; ++t) {
        size_t i = rnd(hs.size()), j = rnd(hs.size()); int op = rnd(7);
        if (op == 0 && hs.size() < 8) add(rnd(100), rnd(6));
        else if (op == 1 && hs.size() < 8) { step("copy " + str(i)); H c(hs[i]); hs.push_back(c); obj.push_back(obj[i]); }
        else if (op == 2) { step(str(i) + "=" + str(j)); hs[i] = hs[j]; obj[i] = obj[j]; }
        else if (op == 3 && hs.size() > 1) { step("destroy " + str(i)); hs.erase(hs.begin() + i); obj.erase(obj.begin() + i); }
        else if (op >= 4) { int k = rnd(6), x = rnd(1000); step("write " + str(x) + " through " + str(i) + " way " + str(k)); size_t shared = 0; for (int o : obj) shared += o == obj[i]; Iface const* before = hs[i].const_pointer(); Iface* p = mut(hs[i], k); same(p->get(), val[obj[i]], "the own object has the value"); if (shared > 1) expect(p != before, "the handle has its own object"); p->set(x); if (shared > 1) { obj[i] = int(val.size()); val.push_back(x); } else val[obj[i]] = x; expect(hs[i].const_pointer() == p, "mutable access reaches the handle's object"); }
        for (size_t a = 0; a < hs.size(); ++a) { long c = Iface::clones; Iface const* p = look(hs[a], rnd(11)); same(p->get(), val[obj[a]], "value seen through handle " + str(a)); expect(p == look(hs[a], rnd(11)), "read-only access reaches one object"); for (size_t b = 0; b < hs.size(); ++b) expect((hs[b].const_pointer() == p) == (obj[a] == obj[b]), "handles " + str(a) + " and " + str(b) + " share an object"); same(Iface::clones, c, "clones made by read-only access"); }
    }
    hs.clear(); same(Iface::alive, base, "objects left over"); }
void wit::run() {
    for (int v = 0; v < 3; ++v) for (int k = 0; k < 6; ++k) { begin("mutable access way " + str(k)); noleak([&] { H a{Conc(v)}; H b(a), c(b); Iface const* p = a.const_pointer(); Iface* q = mut(b, k); expect(q != p && b.const_pointer() == q, "the handle that asked has its own clone"); q->set(77); same(a.const_reference().get(), v, "another handle"); same(c.const_reference().get(), v, "another handle"); expect(a.const_pointer() == p && c.const_pointer() == p, "others keep the object"); H d(b); expect(d.const_pointer() == q, "later copies share the clone"); Handle<const Iface> r(a); expect(r.const_pointer() == p && r.pointer() == p, "a read-only handle shares the object"); Handle<Conc> m = make_handle<Conc>(v); same(m.const_pointer()->v, v, "made"); });  same(Iface::alive, 0l, "objects left over"); }
    size_t n = thorough ? 20000 : 1500; for (size_t i = 0; i < n; ++i) { begin("handles"); history(1 + rnd(14)); } }
