#include "wit.hpp"
#include "iterator.hpp"
using namespace wit; using namespace Helper;
template<class T, class R> struct At : IteratorFacade<At<T,R>,T,RandomAccessTraversalTag,R> {
    T* base; ptrdiff_t pos; At(T* b, ptrdiff_t p) : base(b), pos(p) { } template<class U, class Q> requires (!std::is_same_v<U,T> && std::is_convertible_v<U*,T*>) At(At<U,Q> const& o) : base(o.base), pos(o.pos) { }
    bool equal(At const& o) const { return base == o.base && pos == o.pos; } ptrdiff_t distance_to(At const& o) const { return o.pos - pos; } void advance(ptrdiff_t n) { pos += n; } R dereference() const { return base[pos]; } };
struct Fw : IteratorFacade<Fw,int,ForwardTraversalTag> {
    int* base; ptrdiff_t pos; Fw(int* b, ptrdiff_t p) : base(b), pos(p) { } bool equal(Fw const& o) const { return base == o.base && pos == o.pos; } void increment() { ++pos; } int& dereference() const { return base[pos]; } };
using It = At<int,int&>; using CIt = At<int const,int const&>; using VIt = At<int,int>;
template<class I, class D> void relations(D* d, D* e, ptrdiff_t p, ptrdiff_t q) {
    I a(d, p), b(d, q), c(e, q);
    same(a == b, p == q, "=="); same(a != b, p != q, "!="); same(a == c, false, "== in another sequence"); same(a != c, true, "!= in another sequence");
    same(a < b, p < q, "<"); same(a <= b, p <= q, "<="); same(a > b, p > q, ">"); same(a >= b, p >= q, ">="); same(a - b, p - q, "difference"); same(a.pos, p, "operand"); same(b.pos, q, "operand"); }
void wit::run() {
    static int d[64], e[64]; for (int i = 0; i < 64; ++i) d[i] = i * 3, e[i] = -i;
    const ptrdiff_t L = ptrdiff_t(1) << 61; std::vector<ptrdiff_t> ps{0, 1, 2, 5, 63, -1, -7, 1000, L, -L, L - 1, (1ll << 32) + 3, -(1ll << 32), (1ll << 31), 7};
    for (ptrdiff_t p : ps) for (ptrdiff_t q : ps) { begin("positions " + str(p) + " and " + str(q), p != q);
        relations<It>(d, e, p, q); relations<CIt>((int const*)d, (int const*)e, p, q); relations<VIt>(d, e, p, q); same(CIt(It(d, p)) == CIt(d, q), p == q, "equality after conversion");
        { It a(d, p); It b = a + q; same(b.pos, p + q, "+"); same(a.pos, p, "operand of +"); It c = a - q; same(c.pos, p - q, "-"); same(a.pos, p, "operand of -"); It& r = (a += q); expect(&r == &a, "+= returns the operand"); same(a.pos, p + q, "+="); It& s = (a -= q); expect(&s == &a, "-= returns the operand"); same(a.pos, p, "-=");
          It& t = ++a; expect(&t == &a, "++ returns the operand"); same(a.pos, p + 1, "++"); It& u = --a; expect(&u == &a, "-- returns the operand"); same(a.pos, p, "--"); }
        { Fw a(d, p), b(d, q), c(e, p); same(a == b, p == q, "=="); same(a != b, p != q, "!="); same(a == c, false, "=="); same(a != c, true, "!="); Fw& r = ++a; expect(&r == &a, "++ returns the operand"); same(a.pos, p + 1, "++"); Fw o = b++; same(o.pos, q, "postfix ++ returns the old position"); same(b.pos, q + 1, "postfix ++"); }
        { PairIterator<It,It> x(It(d, p), It(e, q)); same(x._iter1.pos, p, "first"); same(x._iter2.pos, q, "second"); PairIterator<CIt,CIt> y(x); same(y._iter1.pos, p, "first after conversion"); same(y._iter2.pos, q, "second after conversion"); expect(y.equal(x) && x.equal(x), "equal to itself");
          for (int k = 0; k < 4; ++k) { PairIterator<It,It> z(It(k & 1 ? d : e, p), It(k & 2 ? e : d, q)); same(x.equal(z), k == 3, "equality of pairs"); same(y.equal(z), k == 3, "equality of pairs"); } PairIterator<It,It> w(It(d, q), It(e, p)); same(x.equal(w), p == q, "equality of pairs");
          x.advance(q); same(x._iter1.pos, p + q, "first advanced"); same(x._iter2.pos, q + q, "second advanced"); x.advance(-p); same(x._iter1.pos, q, "first advanced"); same(x._iter2.pos, q + q - p, "second advanced"); } }
    for (int p = 0; p < 64; ++p) { begin("dereference at " + str(p)); It a(d, p); expect(&*a == d + p && a.operator->() == d + p, "reference"); expect(&*CIt(d, p) == d + p, "reference"); same(*VIt(d, p), d[p], "value"); Fw f(d, p); expect(&*f == d + p && f.operator->() == d + p, "reference"); } }
