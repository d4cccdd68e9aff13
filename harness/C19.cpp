// Objects: only A; A and B; a class derived from that; A with a plain part; a plain part wrapped.
#include <new>
#include <iostream>
#include "handle.hpp"
#include "opaque.hpp"
using namespace Helper; using namespace vf;
struct A { virtual ~A() = default; virtual A* clone() const = 0; virtual V const& get() const = 0; virtual void set(V const&) = 0; };
struct B { virtual ~B() = default; virtual B* clone() const = 0; virtual V const& get() const = 0; virtual long other() const { return 7; } };
struct A2 : public A { A2* clone() const override = 0; };        // an interface that extends A
struct OnlyA : public A2 { V v; explicit OnlyA(V const& x) : v(x) { } OnlyA* clone() const override { return new OnlyA(*this); } V const& get() const override { return v; } void set(V const& x) override { v=x; } };
struct Shape { long tag=3; V v; explicit Shape(V const& x) : v(x) { } };   // a plain class
struct AandB : public A, public B { long pad=1; V v; explicit AandB(V const& x) : v(x) { } AandB* clone() const override { return new AandB(*this); } V const& get() const override { return v; } void set(V const& x) override { v=x; } };
struct More : public AandB, public WritableInterface { K k; More(V const& x, K const& l) : AandB(x), k(l) { } More* clone() const override { return new More(*this); } std::ostream& _write(std::ostream& os) const override { return os << "more"; } };
struct WithShape : public A, public Shape { explicit WithShape(V const& x) : Shape(x) { } WithShape* clone() const override { return new WithShape(*this); } V const& get() const override { return v; } void set(V const& x) override { v=x; } };
struct Wrapped : public Wrapper<Shape,A> { explicit Wrapped(V const& x) : Wrapper<Shape,A>(Shape(x)) { } A* clone() const override { return new Wrapped(*this); } V const& get() const override { return v; } void set(V const& x) override { v=x; } };
using HA = Handle<A>; using HB = Handle<B>; using HA2 = Handle<A2>; using CA = Handle<const A>; using CB = Handle<const B>;
extern "C" {
void vf_make_OnlyA(HA* at, V const& x, K const&) { new (at) HA(new OnlyA(x)); }
void vf_make_AandB(HA* at, V const& x, K const&) { new (at) HA(new AandB(x)); }
void vf_make_More(HA* at, V const& x, K const& k) { new (at) HA(new More(x,k)); }
void vf_make_WithShape(HA* at, V const& x, K const&) { new (at) HA(new WithShape(x)); }
void vf_make_Wrapped(HA* at, V const& x, K const&) { new (at) HA(new Wrapped(x)); }
void vf_copy(HA* at, HA const& h) { new (at) HA(h); }
void vf_kill(HA* at) { at->~HA(); }
A const* vf_seen(HA const& h) { return h.raw_const_pointer(); }
V const* vf_get(A const& a) { return &a.get(); }
void vf_set(A& a, V const& x) { a.set(x); }
void vf_const(CA* at, HA const& h) { new (at) CA(h); }
A const* vf_seen_const(CA const& h) { return h.raw_const_pointer(); }
// where the parts of an object are
#define VF_PART(T,P) void const* vf_part_##T##_##P(A const& a) { return static_cast<P const*>(static_cast<T const*>(&a)); }
VF_PART(OnlyA,A) VF_PART(OnlyA,A2) VF_PART(OnlyA,OnlyA) VF_PART(AandB,A) VF_PART(AandB,B) VF_PART(AandB,AandB) VF_PART(More,A) VF_PART(More,B) VF_PART(More,AandB) VF_PART(More,More) VF_PART(WithShape,A) VF_PART(WithShape,Shape) VF_PART(WithShape,WithShape)
void const* vf_part_Wrapped_A(A const& a) { return &a; }
void const* vf_part_Wrapped_Shape(A const& a) { return static_cast<Shape const*>(dynamic_cast<Wrapped const*>(&a)); }
void const* vf_part_Wrapped_Wrapped(A const& a) { return dynamic_cast<Wrapped const*>(&a); }
// casting
B const* vf_cast_B(HB* at, HA const& h) { new (at) HB(dynamic_handle_cast<HB>(h)); return at->raw_const_pointer(); }
A const* vf_cast_A(HA* at, HA const& h) { new (at) HA(dynamic_handle_cast<HA>(h)); return at->raw_const_pointer(); }
A2 const* vf_cast_A2(HA2* at, HA const& h) { new (at) HA2(dynamic_handle_cast<HA2>(h)); return at->raw_const_pointer(); }
B const* vf_cast_constB(CB* at, CA const& h) { new (at) CB(dynamic_handle_cast<CB>(h)); return at->raw_const_pointer(); }
B const* vf_cast_HAconstB(CB* at, HA const& h) { new (at) CB(dynamic_handle_cast<CB>(h)); return at->raw_const_pointer(); }
void vf_kill_B(HB* at) { at->~HB(); }
void vf_kill_A(HA* at) { at->~HA(); }
void vf_kill_A2(HA2* at) { at->~HA2(); }
void vf_kill_constB(CB* at) { at->~CB(); }
void vf_kill_HAconstB(CB* at) { at->~CB(); }
void vf_kill_const(CA* at) { at->~CA(); }
// extraction
#define VF_EXTRACT(T) \
void const* vf_extract_##T(HA const& h) { return &dynamic_handle_extract<T>(h); } \
void const* vf_extract_const_##T(CA const& h) { return &dynamic_handle_extract<T>(h); } \
void* vf_extract_mutable_##T(HA& h) { return &dynamic_handle_extract<T>(h); } \
void const* vf_extract_pointer_##T(A const* p, long& uses) { std::shared_ptr<const A> s(p,[](A const*){}); std::shared_ptr<const T> r=dynamic_pointer_extract<T>(s); uses=s.use_count(); return r.get(); }
VF_EXTRACT(OnlyA) VF_EXTRACT(AandB) VF_EXTRACT(More) VF_EXTRACT(WithShape) VF_EXTRACT(Shape) VF_EXTRACT(Wrapped)
void vf_write_OnlyA(OnlyA& t, V const& x) { t.v=x; }
void vf_write_AandB(AandB& t, V const& x) { t.v=x; }
void vf_write_More(More& t, V const& x) { t.v=x; }
void vf_write_WithShape(WithShape& t, V const& x) { t.v=x; }
void vf_write_Shape(Shape& t, V const& x) { t.v=x; }
void vf_write_Wrapped(Wrapped& t, V const& x) { t.v=x; }
}
