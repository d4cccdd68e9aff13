"""Set algebra: for an arbitrary element q, membership in the result is the boolean combination the operation names."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import seqs
from nodesets import *
HARNESS = ['C11.cpp']
ASSUMPTIONS = ['the elements are strictly totally ordered', 'lists of at most 2^57 elements']
N = z3.Not
class Src:
    """the second operand: the elements it has, and those among the first k visited"""
def operand(c, st, what, a=None, name='b', elem='K'):
    x = Src(); x.what = what
    if what == 'the same set': x.p, x.m = a.p, a.m
    elif what == 'set': x.p, x.m, _ = nodes(c, st, 'set', name, elem)
    else:
        x.p = c.raw(st, None, name); st, _ = c.quiet_run(st, 'vf_new_list', [x.p]); sid, x.n, x.a = seqs.arb_seq(st, x.p, name); st.assume(zi(x.n) <= 1 << 57); x.occ, x.trig = occurrences(st, x.n, x.a)
        x.has = lambda q: x.occ(q, x.n); x.done = x.occ; return st, x
    x.trig = x.has = lambda q: S(x.m, q); x.done = lambda q, k: z3.And(S(x.m, q), RANK(x.m, q) < zi(k)); return st, x
def unchanged(c, st, x):
    if x.what != 'list': return kept(c, st, x.p, x.m, None, 'the other operand: ')
    if not c.check(seqs.alive_seq(st, x.p), 'the list exists'): return
    k, b = seqs.view(st, x.p); q = fresh_int('q'); c.prove(st, zi(k) == zi(x.n), 'the list keeps its length'); c.prove(st, z3.Implies(z3.And(0 <= q, q < zi(x.n)), S(b, q) == S(x.a, q)), 'and its elements')
def hints(c, a, b, want, test):
    """what a loop over one of the operands has done so far: decided about the elements visited, and no others"""
    def hint(L, add):
        q = z3.Int('q!h'); F, Tr = z3.BoolVal(False), z3.BoolVal(True)
        if test:
            for x in (a, b): add(lambda E, x=x: z3.ForAll([q], z3.Implies(x.done(q, E.k), want(a.has(q), b.has(q))), patterns=[x.trig(q)]), 'true of the elements visited')
            return
        for u in list(L.slots.values()):
            if u.sort != 'array' or u.loc[0] != 'member': continue
            old = lambda q, u=u: S(u.e, q); new = lambda f, why, u=u: add(lambda E: z3.ForAll([q], S(E.v[u.name], q) == f(E, q), patterns=[S(E.v[u.name], q)]), why)
            keys = [s for s in L.slots.values() if isinstance(s.kind, tuple) and s.kind == ('key', u.loc[1])]
            for it in keys:
                # an iterator walks through the set itself: what lies before it has been decided
                end = it.name[:-4] + '.end'; before = lambda E, q, it=it, end=end: z3.Or(E.v[end], q < E.v[it.name])
                new(lambda E, q, old=old, before=before: z3.And(old(q), z3.Or(want(Tr, b.has(q)), N(before(E, q)))), 'elements before the iterator decided')
            if keys: add(lambda E, u=u: E.v[u.name] == u.e, 'the set stays as it is'); continue
            new(lambda E, q, old=old: z3.If(b.done(q, E.k), want(old(q), Tr), old(q)), 'visited elements of the second operand decided')
            new(lambda E, q, old=old: z3.Or(old(q), z3.And(a.done(q, E.k), want(Tr, b.has(q)))), 'visited elements of the first operand decided')
            new(lambda E, q, old=old: z3.Or(old(q), z3.And(b.done(q, E.k), want(a.has(q), Tr))), 'visited elements of the second operand added')
    c.ex.hints.append(hint)
# ---------------------------------------------------------------- tests
def test(w, second, want, cases):
    @contract(w, w[3:], cases=cases)
    def g(c):
        st = c.state(); st, a = operand(c, st, 'set', None, 'a'); st, b = operand(c, st, c.case, a); hints(c, a, b, want, True); q = z3.Int('q!w')
        for o in c.returns(c.run(st, [a.p, b.p])):
            r = zb(tobool(o.val)); f = lambda q: want(a.has(q), b.has(q)); x = fresh_int('x')
            c.prove(o.st, z3.Implies(r, f(x)), 'true only when it holds of every element')
            c.prove(o.st, z3.Implies(z3.ForAll([q], f(q), patterns=[a.trig(q), b.trig(q)]), r), 'true when it holds of every element')
            kept(c, o.st, a.p, a.m); unchanged(c, o.st, b); c.noleak(o.st)
SETS = ['set', 'the same set']
test('vf_m_subset', 'set', lambda a, b: z3.Implies(b, a), SETS); test('vf_subset', 'set', lambda a, b: z3.Implies(a, b), SETS)
for w in ('vf_m_disjoint', 'vf_disjoint'): test(w, 'set', lambda a, b: N(z3.And(a, b)), SETS); test(w + '_list', 'list', lambda a, b: N(z3.And(a, b)), ['list'])
for w in ('vf_m_contains', 'vf_contains'):
    @contract(w, w[3:])
    def contains(c):
        st = c.state(); st, a = operand(c, st, 'set', None, 'a'); k, t = c.op(st, 'K', 't')
        for o in c.returns(c.run(st, [a.p, k])): c.prove(o.st, zb(tobool(o.val)) == a.has(zi(t)), 'true exactly for the elements'); kept(c, o.st, a.p, a.m); c.noleak(o.st)
# ---------------------------------------------------------------- changes in place
def change(w, want, cases):
    @contract(w, w[3:], cases=cases)
    def g(c):
        st = c.state(); st, a = operand(c, st, 'set', None, 'a'); st, b = operand(c, st, c.case, a); hints(c, a, b, want, False)
        for o in c.returns(c.run(st, [a.p, b.p])):
            c.check(isinstance(o.val, Ptr) and o.val.obj == a.p.obj, 'returns the set'); m = members(c, o.st, a.p)
            if m is None: continue
            q = fresh_int('q'); c.prove(o.st, S(m, q) == want(a.has(q), b.has(q)), 'exactly the elements of the result')
            if c.case != 'the same set': unchanged(c, o.st, b)
            c.noleak(o.st)
minus = lambda a, b: z3.And(a, N(b))
change('vf_m_adjoin', z3.Or, SETS); change('vf_m_remove', minus, SETS); change('vf_remove', minus, SETS); change('vf_m_restrict', z3.And, SETS); change('vf_restrict', z3.And, SETS); change('vf_m_remove_list', minus, ['list'])
for w, own in (('vf_m_remove_value', False), ('vf_m_remove_first', True)):
    @contract(w, w[3:])
    def remove_value(c, own=own):
        st = c.state(); st, a = operand(c, st, 'set', None, 'a')
        if own: st.assume(CARD(a.m) > 0); t = NTH(a.m, 0); args = [a.p]
        else: k, t = c.op(st, 'K', 't'); args = [a.p, k]
        for o in c.returns(c.run(st, args)):
            c.check(isinstance(o.val, Ptr) and o.val.obj == a.p.obj, 'returns the set'); m = members(c, o.st, a.p)
            if m is None: continue
            q = fresh_int('q'); c.prove(o.st, S(m, q) == z3.And(a.has(q), q != zi(t)), 'exactly the elements of the result'); c.noleak(o.st)
# ---------------------------------------------------------------- sets returned
def gives(w, want, cases, first='set'):
    @contract(w, w[3:], cases=cases)
    def g(c):
        st = c.state(); r = c.raw(st, None, 'result'); st, a = operand(c, st, 'set', None, 'a'); st, b = operand(c, st, c.case, a); hints(c, a, b, want, False)
        for o in c.returns(c.run(st, [r, a.p, b.p])):
            m = members(c, o.st, r, 'a set is returned')
            if m is None: continue
            q = fresh_int('q'); c.prove(o.st, S(m, q) == want(a.has(q), b.has(q)), 'exactly the elements of the result'); kept(c, o.st, a.p, a.m); unchanged(c, o.st, b); c.noleak(o.st)
gives('vf_join', z3.Or, SETS); gives('vf_intersection', z3.And, SETS); gives('vf_intersection_list', z3.And, ['list']); gives('vf_difference', minus, SETS)
# images: every element of the source has its image in the result, and every element of the result is an image
def image(w, what, F, elem='K', fn=False, new='vf_new_list'):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); r = c.raw(st, None, 'result'); st, a = operand(c, st, what, None, 'a', elem); args = [r]
        if fn: g_, gt = c.op(st, 'G', 'f'); args.append(g_); f = lambda x: F(gt, x)
        else: f = F
        args.append(a.p); pre = z3.Function(fresh_int('pre').decl().name(), z3.IntSort(), z3.IntSort()); i = z3.Int('i!p')
        # pre(y): the first visited element whose image is y
        n = CARD(a.m) if what == 'set' else zi(a.n); at = (lambda i: NTH(a.m, i)) if what == 'set' else (lambda i: S(a.a, i))
        y = f(at(i)); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= pre(y), pre(y) <= i, f(at(pre(y))) == y)), patterns=[at(i)]))
        img = lambda q, k: z3.And(0 <= pre(q), pre(q) < zi(k), f(at(pre(q))) == q)
        def hint(L, add):
            q = z3.Int('q!h')
            for u in L.slots.values():
                if u.sort == 'array' and u.loc[0] == 'member': add(lambda E, u=u: z3.ForAll([q], S(E.v[u.name], q) == img(q, E.k), patterns=[S(E.v[u.name], q)]), 'images of the visited elements')
        c.ex.hints.append(hint)
        for o in c.returns(c.run(st, args)):
            m = members(c, o.st, r, 'a set is returned')
            if m is None: continue
            q, j = fresh_int('q'), fresh_int('j'); o.st.assume(z3.And(0 <= j, j < n))
            if what == 'set': o.st.assume(RANK(a.m, at(j)) == j)
            c.prove(o.st, z3.Implies(S(m, q), img(q, n)), 'every element of the result is an image'); c.prove(o.st, S(m, f(at(j))), 'the image of every element is in the result')
            unchanged(c, o.st, a); c.noleak(o.st)
conv = lambda t: models.FUN('make_E', [t], z3.IntSort())
call = lambda *t: models.FUN('call', list(t), z3.IntSort())
image('vf_apply', 'set', lambda g, x: call('vf::G', 'vf::K const&')(g, x), 'K', True); image('vf_apply_other', 'set', lambda g, x: call('vf::G', 'vf::E const&')(g, x), 'E', True)
ident = lambda x: x
image('vf_make_set', 'list', ident); image('vf_set_list', 'list', ident); image('vf_set_set', 'set', ident); image('vf_set_list_convert', 'list', lambda x: conv('vf::K')(x)); image('vf_set_convert', 'set', lambda x: conv('vf::K')(x)); image('vf_set_explicit', 'set', lambda x: conv('vf::V')(x), 'V')
@contract('vf_set_ilist')
def set_ilist(c):
    st = c.state(); r = c.raw(st, None, 'result'); xs = [c.op(st, 'K', n) for n in 'xyz']
    for o in c.returns(c.run(st, [r] + [p for p, _ in xs])):
        m = members(c, o.st, r, 'a set is returned')
        if m is None: continue
        q = fresh_int('q'); c.prove(o.st, S(m, q) == z3.Or(*[q == zi(t) for _, t in xs]), 'exactly the elements listed'); c.noleak(o.st)
for w in ('vf_make_list', 'vf_list'):
    @contract(w, w[3:])
    def make_list(c):
        st = c.state(); r = c.raw(st, None, 'result'); st, a = operand(c, st, 'set', None, 'a')
        for o in c.returns(c.run(st, [r, a.p])):
            if not c.check(seqs.alive_seq(o.st, r), 'a list is returned'): continue
            k, b = seqs.view(o.st, r); j = fresh_int('j'); c.prove(o.st, zi(k) == CARD(a.m), 'as many as the set has'); c.prove(o.st, z3.Implies(z3.And(0 <= j, j < CARD(a.m)), S(b, j) == NTH(a.m, j)), 'every element once, in order'); kept(c, o.st, a.p, a.m); c.noleak(o.st)
