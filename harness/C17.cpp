#include <new>
#include <stdexcept>
#include "lazy.hpp"
#include "opaque.hpp"
using namespace Helper; using namespace vf;
struct Made { V v; explicit Made(V const& x) : v(x) { } };
struct Refused : public std::runtime_error { size_t which; explicit Refused(size_t w) : std::runtime_error("refused"), which(w) { } };
// a factory with state: counts its calls, refuses on demand, otherwise makes a new object
struct Factory { size_t* calls; bool* refuse; V const* value; Made* operator()() const { ++*calls; if(*refuse) { throw Refused(*calls); } return new Made(*value); } };
using L = Lazy<Made>;
extern "C" {
void vf_make(L* at, size_t* calls, bool* refuse, V const* value) { new (at) L(std::function<Made*()>(Factory{calls,refuse,value})); }
Made const* vf_get(L const& l) { return &l(); }
void vf_copy(L* at, L const& l) { new (at) L(l); }
void vf_move(L* at, L& l) { new (at) L(std::move(l)); }
void vf_assign(L& d, L const& s) { d=s; }
void vf_kill(L* at) { at->~L(); }
size_t vf_which(L const& l) { try { l(); return 0; } catch(Refused const& r) { return r.which; } }
bool vf_same(L const& l, L const& m) { return &l()==&m(); }
V const* vf_value(Made const* m) { return &m->v; }
}
