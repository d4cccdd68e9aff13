// Iterators whose state is a sequence and a position in it; the primitives are those of positions.
#include <cstddef>
#include <type_traits>
#include <ostream>
#include "iterator.hpp"
#include "opaque.hpp"
using namespace Helper; using vf::V;
struct It : public IteratorFacade<It,long,RandomAccessTraversalTag> {
    long* base; ptrdiff_t pos; ptrdiff_t moves;
    It(long* b, ptrdiff_t p) : base(b), pos(p), moves(0) { }
    bool equal(It const& o) const { return pos==o.pos && base==o.base; }
    ptrdiff_t distance_to(It const& o) const { return o.pos-pos; }
    void advance(ptrdiff_t n) { pos+=n; ++moves; }
    long& dereference() const { return base[pos]; }
};
struct CIt : public IteratorFacade<CIt,long const,RandomAccessTraversalTag> {
    long const* base; ptrdiff_t pos;
    CIt(long const* b, ptrdiff_t p) : base(b), pos(p) { }
    CIt(It const& o) : base(o.base), pos(o.pos) { }
    bool equal(CIt const& o) const { return pos==o.pos && base==o.base; }
    ptrdiff_t distance_to(CIt const& o) const { return o.pos-pos; }
    void advance(ptrdiff_t n) { pos+=n; }
    long const& dereference() const { return base[pos]; }
};
struct Fw : public IteratorFacade<Fw,long,ForwardTraversalTag> {
    long* base; ptrdiff_t pos; ptrdiff_t moves;
    Fw(long* b, ptrdiff_t p) : base(b), pos(p), moves(0) { }
    bool equal(Fw const& o) const { return pos==o.pos && base==o.base; }
    void increment() { ++pos; ++moves; }
    long& dereference() const { return base[pos]; }
};
// a proxy reference, as returned by bit containers
struct Proxy { long* p; };
struct PIt : public IteratorFacade<PIt,long,RandomAccessTraversalTag,Proxy> {
    long* base; ptrdiff_t pos;
    PIt(long* b, ptrdiff_t p) : base(b), pos(p) { }
    bool equal(PIt const& o) const { return pos==o.pos && base==o.base; }
    ptrdiff_t distance_to(PIt const& o) const { return o.pos-pos; }
    void advance(ptrdiff_t n) { pos+=n; }
    Proxy dereference() const { return Proxy{base+pos}; }
};
template<class T> constexpr bool cmp = std::is_same_v<T,bool>;
static_assert(cmp<decltype(std::declval<It const&>()==std::declval<It const&>())> && cmp<decltype(std::declval<Fw const&>()!=std::declval<Fw const&>())>);
extern "C" {
#define VF_CMP(NAME,T,OP) bool vf_##NAME(T const& a, T const& b) { return a OP b; }
VF_CMP(eq,It,==) VF_CMP(ne,It,!=) VF_CMP(lt,It,<) VF_CMP(le,It,<=) VF_CMP(gt,It,>) VF_CMP(ge,It,>=)
VF_CMP(eq_c,CIt,==) VF_CMP(ne_c,CIt,!=) VF_CMP(lt_c,CIt,<) VF_CMP(ge_c,CIt,>=)
VF_CMP(eq_p,PIt,==) VF_CMP(ne_p,PIt,!=) VF_CMP(lt_p,PIt,<) VF_CMP(gt_p,PIt,>)
VF_CMP(eq_f,Fw,==) VF_CMP(ne_f,Fw,!=)
bool vf_eq_mixed(It const& a, CIt const& b) { return b==a; }
ptrdiff_t vf_diff(It const& a, It const& b) { return a-b; }
ptrdiff_t vf_diff_p(PIt const& a, PIt const& b) { return a-b; }
void vf_plus(It* at, It const& a, ptrdiff_t n) { new (at) It(a+n); }
void vf_minus(It* at, It const& a, ptrdiff_t n) { new (at) It(a-n); }
It* vf_plus_eq(It& a, ptrdiff_t n) { It& r=(a+=n); return &r; }
It* vf_minus_eq(It& a, ptrdiff_t n) { It& r=(a-=n); return &r; }
It* vf_inc(It& a) { It& r=++a; return &r; }
It* vf_dec(It& a) { It& r=--a; return &r; }
Fw* vf_inc_f(Fw& a) { Fw& r=++a; return &r; }
void vf_post_f(Fw* at, Fw& a) { new (at) Fw(a++); }
long* vf_deref(It const& a) { return &*a; }
long* vf_arrow(It const& a) { return a.operator->(); }
long* vf_deref_f(Fw const& a) { return &*a; }
long* vf_arrow_f(Fw const& a) { return a.operator->(); }
long* vf_deref_p(PIt const& a) { return (*a).p; }
using PI = PairIterator<It,It>; using PC = PairIterator<CIt,CIt>;
void vf_pair(PI* at, It const& a, It const& b) { new (at) PI(a,b); }
void vf_pair_c(PC* at, It const& a, It const& b) { new (at) PC(PI(a,b)); }
It* vf_pair_1(PI& p) { return &p._iter1; }
It* vf_pair_2(PI& p) { return &p._iter2; }
bool vf_pair_eq(PI const& p, PI const& q) { return p.equal(q); }
bool vf_pair_eq_mixed(PC const& p, PI const& q) { return p.equal(q); }
void vf_pair_adv(PI& p, ptrdiff_t n) { p.advance(n); }
void vf_it(It* at, long* b, ptrdiff_t p) { new (at) It(b,p); }
void vf_cit(CIt* at, long* b, ptrdiff_t p) { new (at) CIt(b,p); }
void vf_fw(Fw* at, long* b, ptrdiff_t p) { new (at) Fw(b,p); }
void vf_pit(PIt* at, long* b, ptrdiff_t p) { new (at) PIt(b,p); }
ptrdiff_t vf_pos(It const& a) { return a.pos; }
long* vf_base(It const& a) { return a.base; }
ptrdiff_t vf_moves(It const& a) { return a.moves; }
ptrdiff_t vf_pos_f(Fw const& a) { return a.pos; }
long* vf_base_f(Fw const& a) { return a.base; }
ptrdiff_t vf_moves_f(Fw const& a) { return a.moves; }
ptrdiff_t vf_pos_c(CIt const& a) { return a.pos; }
long const* vf_base_c(CIt const& a) { return a.base; }
}
