"""Index ranges. The pre-state of every member is whatever the real constructor makes of an arbitrary start and stop."""
from api import *
HARNESS = ['C21.cpp']
ASSUMPTIONS = ['the start of a range is not above its stop']
S = z3.Select; M = 1 << 64
def u64(c, st, nm): v = fresh_int(nm, 0, M - 1); st.assume(z3.And(v >= 0, v < M)); return v
def rng(c, how='vf_make'):
    st = c.state(); p = c.raw(st, None, 'range'); b = u64(c, st, 'stop'); a = u64(c, st, 'start') if how != 'vf_range1' else z3.IntVal(0); st.assume(a <= b)
    st, _ = c.quiet_run(st, how, [p, b] if how == 'vf_range1' else [p, a, b]); return st, p, a, b
HOW = ['vf_make', 'vf_range2', 'vf_range1']
def val(c, o): return zi(c.ex.norm_u(o.st, o.val, 64))
def member(w, pre, post, what):
    @contract(w, w[3:], cases=HOW)
    def g(c):
        st, p, a, b = rng(c, c.case); i = u64(c, st, 'i') if w == 'vf_index' else None
        if i is not None: st.assume(i < b - a)
        if pre: st.assume(pre(a, b))
        for o in c.returns(c.run(st, [p] + ([i] if i is not None else []))): c.prove(o.st, val(c, o) == post(a, b, i), what)
member('vf_index', None, lambda a, b, i: a + i, 'the i-th entry is start plus i')
member('vf_size', None, lambda a, b, i: b - a, 'size is stop minus start')
member('vf_start', None, lambda a, b, i: a, 'start'); member('vf_stop', None, lambda a, b, i: b, 'stop'); member('vf_stride', None, lambda a, b, i: z3.IntVal(1), 'stride is one')
member('vf_at_begin', lambda a, b: a < b, lambda a, b, i: a, 'iteration begins at start')
def walk(w):
    @contract(w, w[3:], cases=HOW)
    def g(c):
        st, p, a, b = rng(c, c.case); st.assume(b - a < 1 << 58)
        o = new_obj(st, 'A', 'param', 'visited'); o.esz = 8; o.n = b - a; o.fields[0] = Field('i64', fresh_arr('old'), 8)
        for r in c.returns(c.run(st, [p, Ptr(o.id, 0, 0)])):
            c.prove(r.st, val(c, r) == b - a, 'as many positions are visited as the range has'); q = fresh_int('q')
            f = r.st.objs[o.id].fields.get(0)
            if c.check(f is not None, 'positions visited'): c.prove(r.st, z3.Implies(z3.And(0 <= q, q < b - a), S(f.arr, q) == a + q), 'the q-th position visited is start plus q')
walk('vf_walk'); walk('vf_walk_by_hand')
@contract('vf_iter_ne')
def iter_ne(c):
    st = c.state(); i, j = u64(c, st, 'i'), u64(c, st, 'j')
    for o in c.returns(c.run(st, [i, j])): c.prove(o.st, zb(tobool(o.val)) == (i != j), 'iterators differ exactly when their positions do')
@contract('vf_iter_next')
def iter_next(c):
    st = c.state(); i = u64(c, st, 'i'); st.assume(i < M - 1); s = c.raw(st, 1, 'self')
    for o in c.returns(c.run(st, [i, s])):
        c.prove(o.st, val(c, o) == i + 1, 'an increment moves to the next position'); c.prove(o.st, zb(tobool(c.cell(o.st, s))), 'and designates the iterator itself')
