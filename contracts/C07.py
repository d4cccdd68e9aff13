"""Complement of a strictly increasing list of indices. below(x) is the number of given indices smaller than x (ghost function,
defined by its position in the sorted list)."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import arrays as ar
HARNESS = ['C07.cpp']
ASSUMPTIONS = ['the given indices are strictly increasing and smaller than the bound']
S = z3.Select
@contract('vf_complement', cases=['block', 'null'])
def complement(c):
    st = c.state(); a = ar.make(c, st, c.case, kind='i64'); n = zi(a.n); v = a.arr; p = c.raw(st, None, 'result')
    nmax = fresh_int('nmax', 0, 1 << 58); st.assume(z3.And(nmax >= n, nmax <= 1 << 58)); i, j, x = z3.Ints('i!p j!p x!p')
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), S(v, i) < S(v, j)), patterns=[z3.MultiPattern(S(v, i), S(v, j))]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(S(v, i) >= 0, S(v, i) < nmax)), patterns=[S(v, i)]))
    below = z3.Function('below', z3.IntSort(), z3.IntSort()); core.FNB['below'] = (0, 1 << 58)
    st.assume(z3.ForAll([x], z3.And(0 <= below(x), below(x) <= n, z3.Implies(below(x) > 0, S(v, below(x) - 1) < x), z3.Implies(below(x) < n, S(v, below(x)) >= x)), patterns=[below(x)]))
    c.induct(st, lambda q: S(v, q) + (n - 1 - q) <= nmax - 1, 0, n, 'the given indices from a position on fit below the bound', True, lambda q: S(v, q))
    given = lambda x: z3.And(below(x) < n, S(v, below(x)) == x)
    st.assume(below(nmax) == n); st.assume(below(z3.IntVal(0)) == 0)       # both follow from the definition
    x0 = fresh_int('x0'); y0 = fresh_int('y0'); y = z3.Int('y!p')
    step = lambda x, y: z3.Implies(y == x + 1, below(y) == below(x) + z3.If(given(x), 1, 0))
    c.prove(st, step(x0, y0), 'the number of given indices below grows by one exactly at a given index')
    st.assume(z3.ForAll([x, y], step(x, y), patterns=[z3.MultiPattern(below(x), below(y))]))
    rank = lambda x, y: x - below(x) + z3.If(given(x), 0, 1) <= y - below(y); s2 = st.copy(); s2.assume(z3.And(0 <= x0, x0 < nmax))
    if c.induct(s2, lambda q: rank(x0, q), x0 + 1, nmax + 1, 'ranks among the indices that are not given increase', pat=lambda q: below(q)):
        st.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y <= nmax), rank(x, y)), patterns=[z3.MultiPattern(below(x), below(y))]))
    seen = z3.Function('seen', z3.IntSort(), z3.BoolSort())         # true of everything; only steers instantiation
    def arrayhint(add, J, name):
        top = lambda E: J(E) - below(J(E)); q, r = z3.Ints('q!h r!h'); A = lambda E, q: S(E.v[name], q)
        add(lambda E: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < top(E)), z3.And(0 <= A(E, q), A(E, q) < J(E), A(E, q) - below(A(E, q)) == q, z3.Not(given(A(E, q))))), patterns=[A(E, q)]), 'holds the indices that are not given in order', 2)
        add(lambda E: z3.ForAll([x], z3.Implies(z3.And(seen(x), 0 <= x, x < J(E), z3.Not(given(x))), A(E, x - below(x)) == x), patterns=[seen(x)]), 'holds every index that is not given', 2)
    def livehint(add, J, name):
        q = z3.Int('q!h')
        add(lambda E: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < J(E) - below(J(E))), S(E.v[name], q)), patterns=[S(E.v[name], q)]), 'written so far', 2)
    def kepthint(add, s):
        q = z3.Int('q!h'); add(lambda E: z3.ForAll([q], S(E.v[s.name], q) == S(s.e, q), patterns=[S(E.v[s.name], q)]), 'every element exists already')
    def counthint(add, J, name):
        add(lambda E: zi(E.v[name]) == below(J(E)), 'counts the given indices below'); add(lambda E: zi(E.v[name]) == J(E) - below(J(E)), 'counts the other indices below')
    def hint(L, add):
        ints = [s for s in L.slots.values() if s.sort == 'int' and s.size == 8]
        if len(ints) < 2 or all(u.kind == 'ptr' for u in ints): return      # a copying loop
        closed = [u for u in ints if u.cf is not None]
        for u in ints:
            if u.kind == 'ptr': continue
            J = lambda E, u=u: zi(E.v[u.name])
            if u.cf is None or len(closed) == len(ints): add(lambda E, J=J, u=u: below(J(E)) == below(zi(u.e)), 'no given index passed')
            for s in ints:
                if s is not u: counthint(add, J, s.name)
            for s in L.slots.values():
                if s.sort == 'array' and s.kind == 'arr': arrayhint(add, J, s.name)
                if s.sort == 'array' and s.kind == 'live': livehint(add, J, s.name)
        for s in L.slots.values():
            if s.sort == 'array' and s.kind == 'live': kepthint(add, s)
    c.ex.hints.append(hint)
    for o in c.returns(c.run(st, [p, nmax, a.p])):
        if z3.is_false(z3.simplify(zi(nmax) == 0)): pass
        ok = ar.check(c, o.st, p, nmax - n, None, 'complement', kind='i64')
        ar.check(c, o.st, a.p, a.n, lambda q: S(v, q), 'argument', kind='i64')
        if ok is None or ok is True or ok is False: continue
        R = o.st.objs[ok].fields[0].arr if 0 in o.st.objs[ok].fields else None
        if R is None: continue
        q, r, y = fresh_int('q'), fresh_int('r'), fresh_int('x'); inn = lambda q: z3.And(0 <= q, q < nmax - n)
        c.prove(o.st, z3.Implies(inn(q), z3.And(0 <= S(R, q), S(R, q) < nmax)), 'every entry is below the bound')
        c.prove(o.st, z3.Implies(z3.And(inn(q), 0 <= r, r < n), S(R, q) != S(v, r)), 'no entry is a given index')
        c.prove(o.st, z3.Implies(z3.And(inn(q), inn(r), q < r), S(R, q) < S(R, r)), 'entries strictly increase')
        c.prove(o.st, z3.Implies(z3.And(0 <= y, y < nmax, z3.Not(given(y))), z3.And(inn(y - below(y)), S(R, y - below(y)) == y)), 'every index that is not given occurs')
        c.noleak(o.st)
