#include <new>
#include "handle.hpp"
#include "opaque.hpp"
using namespace Helper; using namespace vf;
struct Iface { static inline size_t clones=0; virtual ~Iface() = default; virtual Iface* clone() const = 0; virtual Iface* _copy() const = 0; virtual Iface* _move() = 0; virtual V const& get() const = 0; virtual void set(V const&) = 0; };
struct Conc : public Iface { V v; explicit Conc(V const& x) : v(x) { } Conc(Conc const&) = default; Conc(Conc&&) = default;
  Iface* clone() const override { ++clones; return new Conc(*this); } Iface* _copy() const override { return new Conc(*this); } Iface* _move() override { return new Conc(std::move(*this)); } V const& get() const override { return v; } void set(V const& x) override { v=x; } };
struct Wide : public Iface { K k; V v; Wide(K const& l, V const& x) : k(l), v(x) { }
  Iface* clone() const override { ++clones; return new Wide(*this); } Iface* _copy() const override { return new Wide(*this); } Iface* _move() override { return new Wide(std::move(*this)); } V const& get() const override { return v; } void set(V const& x) override { v=x; } };
using H = Handle<Iface>; using HC = Handle<const Iface>;
extern "C" {
void vf_from_copy(H* at, V const& x) { Conc c(x); new (at) H(c); }
void vf_from_object(H* at, Conc const& c) { new (at) H(c); }
void vf_from_moved(H* at, Conc& c) { new (at) H(std::move(c)); }
void vf_from_iface(H* at, Iface const& c) { new (at) H(c); }
void vf_from_iface_moved(H* at, Iface& c) { new (at) H(std::move(c)); }
void vf_from_pointer(H* at, Iface* p) { new (at) H(p); }
void vf_from_shared(H* at, V const& x) { std::shared_ptr<Iface> s(new Conc(x)); new (at) H(s); }
void vf_from_wide(H* at, K const& k, V const& x) { new (at) H(Wide(k,x)); }
void vf_made(Handle<Conc>* at, V const& x) { new (at) Handle<Conc>(make_handle<Conc>(x)); }
Conc* vf_object(Conc* at, V const& x) { return new (at) Conc(x); }
Iface* vf_new_object(V const& x) { return new Conc(x); }
V const* vf_object_value(Conc const& c) { return &c.v; }
void vf_kill_object(Conc* c) { c->~Conc(); }
void vf_copy(H* at, H const& h) { new (at) H(h); }
void vf_move(H* at, H& h) { new (at) H(std::move(h)); }
void vf_assign(H& d, H const& s) { d=s; }
void vf_move_assign(H& d, H& s) { d=std::move(s); }
void vf_kill(H* at) { at->~H(); }
void vf_kill_made(Handle<Conc>* at) { at->~Handle<Conc>(); }
// read-only access
Iface const* vf_const_reference(H const& h) { return &h.const_reference(); }
Iface const* vf_reference_const(H const& h) { return &h.reference(); }
Iface const* vf_const_pointer(H const& h) { return h.const_pointer(); }
Iface const* vf_pointer_const(H const& h) { return h.pointer(); }
Iface const* vf_raw_const_pointer(H const& h) { return h.raw_const_pointer(); }
Iface const* vf_raw_pointer_const(H const& h) { return h.raw_pointer(); }
Iface const* vf_ref_const(H const& h) { return &h.ref(); }
Iface const* vf_ptr_const(H const& h) { return h.ptr(); }
Iface const* vf_managed_const_pointer(H const& h) { return h.managed_const_pointer().get(); }
Iface const* vf_managed_pointer_const(H const& h) { return h.managed_pointer().get(); }
Iface const* vf_conversion(H const& h) { return &static_cast<Iface const&>(h); }
// read-only access through a modifiable handle
Iface const* vf_const_reference_m(H& h) { return &h.const_reference(); }
Iface const* vf_const_pointer_m(H& h) { return h.const_pointer(); }
Iface const* vf_raw_const_pointer_m(H& h) { return h.raw_const_pointer(); }
Iface const* vf_managed_const_pointer_m(H& h) { return h.managed_const_pointer().get(); }
Iface const* vf_conversion_m(H& h) { return &static_cast<Iface const&>(h); }
// mutable access
Iface* vf_reference(H& h) { return &h.reference(); }
Iface* vf_pointer(H& h) { return h.pointer(); }
Iface* vf_raw_pointer(H& h) { return h.raw_pointer(); }
Iface* vf_ref(H& h) { return &h.ref(); }
Iface* vf_ptr(H& h) { return h.ptr(); }
Iface* vf_managed_pointer(H& h) { return h.managed_pointer().get(); }
// a handle of read-only objects never clones
Iface const* vf_hc_reference(V const& x, HC* at) { new (at) HC(std::shared_ptr<const Iface>(new Conc(x))); Iface const* p=at->const_pointer(); Iface const* q=&at->reference(); return p==q ? q : nullptr; }
void vf_to_const(HC* at, H const& h) { new (at) HC(h); }
Iface const* vf_hc_pointer(HC const& h) { return h.const_pointer(); }
void vf_kill_const(HC* at) { at->~HC(); }
void vf_set(Iface& i, V const& x) { i.set(x); }
V const* vf_get(Iface const& i) { return &i.get(); }
size_t vf_clones() { return Iface::clones; }
}
