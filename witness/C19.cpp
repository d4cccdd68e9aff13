#define WIT_ALLOC
#include "wit.hpp"
#include "handle.hpp"
using namespace wit; using namespace Helper;
struct A { virtual ~A() = default; virtual A* clone() const = 0; virtual int get() const = 0; virtual void set(int) = 0; };
struct B { virtual ~B() = default; virtual B* clone() const = 0; virtual int get() const = 0; };
struct A2 : A { A2* clone() const override = 0; };
struct OnlyA : A2 { int v; explicit OnlyA(int x) : v(x) { } OnlyA* clone() const override { return new OnlyA(*this); } int get() const override { return v; } void set(int x) override { v = x; } };
struct Shape { long tag = 3; int v; explicit Shape(int x) : v(x) { } };
struct Both : A, B { long pad = 1; int v; explicit Both(int x) : v(x) { } Both* clone() const override { return new Both(*this); } int get() const override { return v; } void set(int x) override { v = x; } };
struct More : Both, WritableInterface { int w; More(int x) : Both(x), w(x) { } More* clone() const override { return new More(*this); } std::ostream& _write(std::ostream& os) const override { return os << "more"; } };
struct WithShape : A, Shape { explicit WithShape(int x) : Shape(x) { } WithShape* clone() const override { return new WithShape(*this); } int get() const override { return v; } void set(int x) override { v = x; } };
struct Wrapped : Wrapper<Shape, A> { explicit Wrapped(int x) : Wrapper<Shape, A>(Shape(x)) { } A* clone() const override { return new Wrapped(*this); } int get() const override { return v; } void set(int x) override { v = x; } };
using HA = Handle<A>; using HB = Handle<B>; using HA2 = Handle<A2>; using CA = Handle<const A>; using CB = Handle<const B>;
static A* make(int kind, int x) { switch (kind) { case 0: return new OnlyA(x); case 1: return new Both(x); case 2: return new More(x); case 3: return new WithShape(x); default: return new Wrapped(x); } }
static const char* names[] = {"OnlyA", "Both", "More", "WithShape", "Wrapped"};
static bool matches(A const& a, int t) { switch (t) { case 0: return dynamic_cast<OnlyA const*>(&a); case 1: return dynamic_cast<Both const*>(&a); case 2: return dynamic_cast<More const*>(&a); case 3: return dynamic_cast<WithShape const*>(&a); case 4: return dynamic_cast<Shape const*>(&a) || dynamic_cast<Wrapper<Shape, A> const*>(&a); default: return dynamic_cast<Wrapped const*>(&a); } }
static std::string diverted;
struct Mute { std::ostringstream s; std::streambuf* b; Mute() { b = std::cerr.rdbuf(s.rdbuf()); } ~Mute() { std::cerr.rdbuf(b); std::cerr.clear(); } };
template<class F> static bool cast_ok(F f) { Mute m; try { f(); return true; } catch (std::bad_cast const&) { return false; } }
template<class T> static void extraction(int kind, int x, int t) {
    begin(std::string("extract ") + str(t) + " from " + names[kind]);
    { HA h(make(kind, x)); HA o(h); A const* p = o.const_pointer(); bool m = matches(*p, t);
      HA const& c = h; T const* q = nullptr; expect(cast_ok([&] { q = &dynamic_handle_extract<T>(c); }) == m, "read-only extraction"); if (m) expect(dynamic_cast<void const*>(p) == (const void*)dynamic_cast<void const*>(p) && (char const*)q >= (char const*)dynamic_cast<void const*>(p) && (char const*)q < (char const*)dynamic_cast<void const*>(p) + 64 && q->v == x, "that very object"); expect(h.const_pointer() == p && p->get() == x, "the handle is unchanged");
      CA k(h); T const* qk = nullptr; expect(cast_ok([&] { qk = &dynamic_handle_extract<T>(k); }) == m && qk == q, "extraction from a read-only handle");
      std::shared_ptr<const A> sp(p, [](A const*) {}); std::shared_ptr<const T> tp; expect(cast_ok([&] { tp = dynamic_pointer_extract<T>(sp); }) && bool(tp) == m && tp.get() == q, "pointer form"); if (m) expect(sp.use_count() == 2, "the pointer shares the object");
      T* w = nullptr; expect(cast_ok([&] { w = &dynamic_handle_extract<T>(h); }) == m, "mutable extraction"); if (m) { w->v = x + 1; expect(o.const_pointer() == p && o.const_reference().get() == x, "a write through a mutable extraction reached another handle"); expect(h.const_reference().get() == x + 1, "the write reaches the handle"); } else expect(h.const_reference().get() == x && h.const_pointer() == p, "the handle is unchanged");
 } }
void wit::run() {
    size_t n = thorough ? 2000 : 40;
    for (size_t i = 0; i < n; ++i) for (int kind = 0; kind < 5; ++kind) { int x = int(rnd(1000)); begin(std::string("cast ") + names[kind]); { HA h(make(kind, x)); A const* p = h.const_pointer(); CA k(h);
            bool b = dynamic_cast<B const*>(p), a2 = dynamic_cast<A2 const*>(p); const B* qb = dynamic_cast<B const*>(p);
            expect(cast_ok([&] { HB r = dynamic_handle_cast<HB>(h); expect(r.const_pointer() == qb && qb->get() == x, "the same object"); }) == b, "cast to B");
            expect(cast_ok([&] { HA r = dynamic_handle_cast<HA>(h); expect(r.const_pointer() == p, "the same object"); }), "cast to the same interface");
            expect(cast_ok([&] { HA2 r = dynamic_handle_cast<HA2>(h); expect((A const*)r.const_pointer() == p, "the same object"); }) == a2, "cast to A2");
            expect(cast_ok([&] { CB r = dynamic_handle_cast<CB>(k); expect(r.const_pointer() == qb, "the same object"); }) == b, "read-only cast");
            expect(cast_ok([&] { CB r = dynamic_handle_cast<CB>(h); expect(r.const_pointer() == qb, "the same object"); }) == b, "cast to a read-only handle");
            expect(h.const_pointer() == p && k.const_pointer() == p && p->get() == x, "the handle is unchanged"); }
        extraction<OnlyA>(kind, x, 0); extraction<Both>(kind, x, 1); extraction<More>(kind, x, 2); extraction<WithShape>(kind, x, 3); extraction<Shape>(kind, x, 4); extraction<Wrapped>(kind, x, 5); }
    for (int kind = 0; kind < 5; ++kind) { begin("storage"); noleak([&] { HA h(make(kind, 3)); HA o(h); cast_ok([&] { HB r = dynamic_handle_cast<HB>(h); }); cast_ok([&] { dynamic_handle_extract<Shape>(h); }); }); } }
