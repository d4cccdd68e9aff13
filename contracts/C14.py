"""Uniqueness and duplicates: ghost functions give the first and second position of every element."""
from api import *
import seqs
HARNESS = ['C14.cpp']
ASSUMPTIONS = ['sequences of at most 2^57 elements', 'the elements are strictly totally ordered']
S = z3.Select
class Q: pass
def arbitrary(c, new, dup=False):
    """an arbitrary sequence with its first and second occurrences"""
    st = c.state(); x = Q(); x.p = c.raw(st, None, 'list'); st, _ = c.quiet_run(st, new, [x.p]); sid, x.n, x.a = seqs.arb_seq(st, x.p, 'list'); st.assume(zi(x.n) <= 1 << 57)
    f1, f2 = (z3.Function(fresh_int(w).decl().name(), z3.IntSort(), z3.IntSort()) for w in ('first', 'second')); x.f1, x.f2 = f1, f2; i = z3.Int('i!g'); e = S(x.a, i); n = zi(x.n)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= f1(e), f1(e) <= i, S(x.a, f1(e)) == e)), patterns=[e]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, i != f1(e)), z3.And(f1(e) < f2(e), f2(e) <= i, S(x.a, f2(e)) == e)), patterns=[e]))
    x.occurs = lambda q, k: z3.And(0 <= f1(q), f1(q) < k, S(x.a, f1(q)) == q); x.again = lambda q, k: z3.And(0 <= f1(q), f1(q) < f2(q), f2(q) < k, S(x.a, f1(q)) == q, S(x.a, f2(q)) == q)
    # up to d every element is new, the one at d (if any) is not
    x.d = d = fresh_int('d'); st.assume(z3.And(0 <= d, d <= n)); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d), f1(e) == i), patterns=[e])); st.assume(z3.Implies(d < n, f1(S(x.a, d)) < d)); j = z3.Int('j!g')
    def hint(L, add):
        q = z3.Int('q!h')
        for u in L.slots.values():
            if u.sort == 'array' and u.loc[0] == 'member':
                for w, g in (('seen', x.occurs), ('seen twice', x.again)): add(lambda E, u=u, g=g: z3.ForAll([q], S(E.v[u.name], q) == g(q, zi(E.k)), patterns=[S(E.v[u.name], q)]), f'elements {w} so far')
                if not dup: add(lambda E, u=u: z3.And(CARD(E.v[u.name]) <= zi(E.k), (CARD(E.v[u.name]) == zi(E.k)) == (zi(E.k) <= d)), 'as many elements as positions while all are new')
            if dup: continue
            if u.sort == 'int' and u.size == 1 or u.sort == 'bool':
                for w in (True, False): add(lambda E, u=u, w=w: (E.v[u.name] if u.sort == 'bool' else E.v[u.name] != 0) == ((zi(E.k) <= d) == w), 'whether all so far are new')
            if u.sort == 'int' and u.size == 8:
                # nested loops over pairs of positions
                add(lambda E, u=u: z3.ForAll([j], z3.Implies(z3.And(zi(u.e) <= j, j < zi(u.e) + zi(E.k)), S(x.a, j) != S(x.a, zi(u.e) - 1)), patterns=[S(x.a, j)]), 'differs from all compared so far')
        if dup: return
        add(lambda E: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Or(f1(e) == i, f1(e) >= zi(E.k))), patterns=[e]), 'no repetition of an element compared so far')
        add(lambda E: zi(E.k) <= d, 'every element so far is new')
    c.ex.hints.append(hint); return st, x
def kept(c, st, x):
    if not c.check(seqs.alive_seq(st, x.p), 'the sequence exists'): return
    k, b = seqs.view(st, x.p); q = fresh_int('q'); c.prove(st, zi(k) == zi(x.n), 'the sequence keeps its length'); c.prove(st, z3.Implies(z3.And(0 <= q, q < zi(x.n)), S(b, q) == S(x.a, q)), 'and its elements')
for w, new in (('vf_unique', 'vf_new'), ('vf_unique_list', 'vf_new'), ('vf_unique_int', 'vf_new_int')):
    @contract(w, w[3:], cases=['no two equal', 'two equal'])
    def unique(c, new=new):
        st, x = arbitrary(c, new); i, j = z3.Ints('i!u j!u')
        if c.case == 'no two equal': st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(x.n)), S(x.a, i) != S(x.a, j)), patterns=[z3.MultiPattern(S(x.a, i), S(x.a, j))]))
        else: i, j = fresh_int('i'), fresh_int('j'); st.assume(z3.And(0 <= i, i < j, j < zi(x.n))); st.assume(S(x.a, i) == S(x.a, j))
        for o in c.returns(c.run(st, [x.p])):
            c.prove(o.st, zb(tobool(o.val)) == (c.case == 'no two equal'), 'true exactly when no two positions hold equal elements'); kept(c, o.st, x); c.noleak(o.st)
for w, new in (('vf_duplicates', 'vf_new'), ('vf_duplicates_list', 'vf_new'), ('vf_duplicates_int', 'vf_new_int')):
    @contract(w, w[3:])
    def duplicates(c, new=new):
        st, x = arbitrary(c, new, True); r = c.raw(st, None, 'result'); i, j = fresh_int('i'), fresh_int('j')
        for o in c.returns(c.run(st, [r, x.p])):
            cell = o.st.objs[r.obj].cells.get(0)
            if not c.check(cell is not None and isinstance(cell[0], Cont) and o.st.objs[cell[0].store].alive, 'a set is returned'): continue
            m = o.st.objs[cell[0].store].member; q = fresh_int('q')
            c.prove(o.st, z3.Implies(S(m, q), x.again(q, zi(x.n))), 'every element of the result occurs at two positions')
            c.prove(o.st, z3.Implies(z3.And(0 <= i, i < j, j < zi(x.n), S(x.a, i) == S(x.a, j)), S(m, S(x.a, i))), 'every element that occurs at two positions is in the result'); kept(c, o.st, x); c.noleak(o.st)
