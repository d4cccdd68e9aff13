#include "wit.hpp"
#include "writable.hpp"
#include "handle.hpp"
using namespace wit; using namespace Helper;
struct Shown : WritableInterface { std::string t; mutable int calls = 0; explicit Shown(std::string s) : t(s) { } std::ostream& _write(std::ostream& os) const override { ++calls; return os << "<" << t << ">"; } };
struct More : Shown { using Shown::Shown; std::ostream& _write(std::ostream& os) const override { ++calls; return os << t << t; } };
struct Virt : virtual WritableInterface { int n; explicit Virt(int k) : n(k) { } std::ostream& _write(std::ostream& os) const override { return os << "v" << n; } };
namespace plain { struct Member { std::string t; mutable int calls = 0; std::ostream& _write(std::ostream& os) const { ++calls; return os << "(" << t << ")"; } };
  struct Final final { int n; mutable int calls = 0; std::ostream& _write(std::ostream& os) const { ++calls; return os << n << "," << std::hex << n << std::dec; } }; 
  struct Nothing { std::ostream& _write(std::ostream& os) const { return os; } };
  template<class T> struct Tmpl { T t; std::ostream& _write(std::ostream& os) const { return os << t << "/" << t; } }; }
struct Val { int k; };
struct Pen : WriterInterface<Val> { std::string p; mutable int calls = 0; mutable Val const* seen = nullptr; explicit Pen(std::string s) : p(s) { } private: std::ostream& _write(std::ostream& os, Val const& v) const override { ++calls; seen = &v; return os << p << v.k; } };
struct Loud : Pen { using Pen::Pen; private: std::ostream& _write(std::ostream& os, Val const& v) const override { return os << v.k << "!" << p; } };
template<class F> void writes(std::string const& want, F f) { std::ostringstream os; os << "before "; std::ostream& r = f(static_cast<std::ostream&>(os)); expect(&r == &os, "the same stream is returned"); same(os.str(), "before " + want, "text written"); }
void wit::run() {
    for (std::string t : {"", "a", "two words", "x\ny", "0123456789012345678901234567890"}) { begin("writing " + t);
        Shown s(t); More m(t); plain::Member p{t}; plain::Nothing n; plain::Tmpl<std::string> q{t}; int k = t.size() * 17; plain::Final f{k}; Virt v(k);
        WritableInterface const& w = s; WritableInterface const& x = m; WritableInterface const& y = v;
        writes("<" + t + ">", [&](std::ostream& os) -> std::ostream& { return os << w; }); same(s.calls, 1, "calls of the write member"); writes("<" + t + ">", [&](std::ostream& os) -> std::ostream& { return w.write(os); }); same(s.calls, 2, "calls of the write member");
        writes(t + t, [&](std::ostream& os) -> std::ostream& { return os << x; }); same(m.calls, 1, "calls of the write member"); writes("v" + str(k), [&](std::ostream& os) -> std::ostream& { return os << y; });
        writes("(" + t + ")", [&](std::ostream& os) -> std::ostream& { return os << p; }); same(p.calls, 1, "calls of the write member"); writes("", [&](std::ostream& os) -> std::ostream& { return os << n; }); writes(t + "/" + t, [&](std::ostream& os) -> std::ostream& { return os << q; });
        { std::ostringstream h; h << k << "," << std::hex << k; writes(h.str(), [&](std::ostream& os) -> std::ostream& { return os << f; }); same(f.calls, 1, "calls of the write member"); }
        writes("(" + t + ");<" + t + ">;" + t + t, [&](std::ostream& os) -> std::ostream& { return os << p << ";" << w << ";" << x; });
        Pen pen(t); Loud loud(t); Val a{k}, b{k + 1}; WriterInterface<Val> const& wi = pen; WriterInterface<Val> const& wl = loud;
        writes(t + str(k), [&](std::ostream& os) -> std::ostream& { return os << wi(a); }); same(pen.calls, 1, "calls of the writer"); expect(pen.seen == &a, "the very object is written"); writes(str(k + 1) + "!" + t, [&](std::ostream& os) -> std::ostream& { return os << wl(b); });
        writes(t + str(k) + str(k + 1) + "!" + t + t + str(k + 1), [&](std::ostream& os) -> std::ostream& { return os << wi(a) << wl(b) << wi(b); });
        Writer<Val> h{Pen(t)}; Writer<Val> g(h); writes(t + str(k) + t + str(k + 1), [&](std::ostream& os) -> std::ostream& { return os << h(a) << g(b); });
        Handle<WriterInterface<Val>> hh{Loud(t)}; Writer<Val> wh(hh); writes(str(k) + "!" + t, [&](std::ostream& os) -> std::ostream& { return os << wh(a); }); auto late = wi(a); a.k = 5; writes(t + "5", [&](std::ostream& os) -> std::ostream& { return os << late; }); } }
