#include <ostream>
#include <utility>
#include "writable.hpp"
#include "handle.hpp"
#include "opaque.hpp"
using namespace vf; using std::ostream;
// what a member writes is arbitrary: two opaque pieces and punctuation
struct Shown : public Helper::WritableInterface { K const& a; K const& b; mutable size_t calls=0; Shown(K const& x, K const& y) : a(x), b(y) { }
  ostream& _write(ostream& os) const override { ++calls; return os << "<" << a << ";" << b << ">"; } };
struct More : public Shown { using Shown::Shown; ostream& _write(ostream& os) const override { ++calls; return os << b << "!"; } };
namespace plain {
struct Member { K const& a; mutable size_t calls=0; explicit Member(K const& x) : a(x) { } ostream& _write(ostream& os) const { ++calls; return os << "(" << a << ")"; } };
struct Final final { K const& a; mutable size_t calls=0; explicit Final(K const& x) : a(x) { } ostream& _write(ostream& os) const { ++calls; return os << a << a; } };
}
struct Pen : public Helper::WriterInterface<K> { V const& v; mutable size_t calls=0; mutable void const* seen=nullptr; explicit Pen(V const& x) : v(x) { } private: ostream& _write(ostream& os, K const& k) const override { ++calls; seen=&k; return os << v << ":" << k; } };
struct Wide : public Pen { using Pen::Pen; private: ostream& _write(ostream& os, K const& k) const override { ++calls; return os << k << "..."; } };
extern "C" {
ostream* vf_iface(ostream& os, K const& a, K const& b, size_t& calls) { Shown s(a,b); Helper::WritableInterface const& w=s; ostream& r=(os<<w); calls=s.calls; return &r; }
ostream* vf_iface_derived(ostream& os, K const& a, K const& b, size_t& calls) { More s(a,b); Helper::WritableInterface const& w=s; ostream& r=(os<<w); calls=s.calls; return &r; }
ostream* vf_iface_write(ostream& os, K const& a, K const& b, size_t& calls) { Shown s(a,b); Helper::WritableInterface const& w=s; ostream& r=w.write(os); calls=s.calls; return &r; }
ostream* vf_iface_object(ostream& os, K const& a, K const& b, size_t& calls) { using Helper::operator<<; Shown s(a,b); ostream& r=(os<<static_cast<Helper::WritableInterface const&>(s)); calls=s.calls; return &r; }
ostream* vf_member(ostream& os, K const& a, size_t& calls) { using Helper::operator<<; plain::Member m(a); ostream& r=(os<<m); calls=m.calls; return &r; }
ostream* vf_final(ostream& os, K const& a, size_t& calls) { using Helper::operator<<; plain::Final m(a); ostream& r=(os<<m); calls=m.calls; return &r; }
ostream* vf_twice(ostream& os, K const& a, K const& b) { using Helper::operator<<; plain::Member m(a); Shown s(a,b); ostream& r=(os<<m<<","<<static_cast<Helper::WritableInterface const&>(s)); return &r; }
ostream* vf_writer_iface(ostream& os, V const& v, K const& k, size_t& calls) { Pen p(v); Helper::WriterInterface<K> const& w=p; ostream& r=(os<<w(k)); calls=p.calls; return &r; }
ostream* vf_writer_object(ostream& os, V const& v, K const& k, void const*& seen, void const*& given) { Pen p(v); Helper::WriterInterface<K> const& w=p; ostream& r=(os<<w(k)); seen=p.seen; given=&k; return &r; }
ostream* vf_writer_later(ostream& os, V const& v, K& k, K const& l) { Pen p(v); Helper::WriterInterface<K> const& w=p; auto t=w(k); k=l; ostream& r=(os<<t); return &r; }
ostream* vf_handle_later(ostream& os, V const& v, K& k, K const& l) { Helper::Writer<K> w{Pen(v)}; auto t=w(k); k=l; ostream& r=(os<<t); return &r; }
ostream* vf_writer_wide(ostream& os, V const& v, K const& k, size_t& calls) { Wide p(v); Helper::WriterInterface<K> const& w=p; ostream& r=(os<<w(k)); calls=p.calls; return &r; }
ostream* vf_writer_two(ostream& os, V const& v, V const& u, K const& k, K const& l) { Pen p(v); Pen q(u); Helper::WriterInterface<K> const& w=p; Helper::WriterInterface<K> const& x=q; ostream& r=(os<<w(k)<<x(l)<<w(l)); return &r; }
ostream* vf_writer(ostream& os, V const& v, K const& k) { Helper::Writer<K> w{Pen(v)}; ostream& r=(os<<w(k)); return &r; }
ostream* vf_writer_copy(ostream& os, V const& v, K const& k) { Helper::Writer<K> w{Pen(v)}; Helper::Writer<K> x(w); ostream& r=(os<<x(k)<<w(k)); return &r; }
ostream* vf_writer_handle(ostream& os, V const& v, K const& k) { Helper::Handle<Helper::WriterInterface<K>> h{Pen(v)}; Helper::Writer<K> w(h); ostream& r=(os<<w(k)); return &r; }
}
