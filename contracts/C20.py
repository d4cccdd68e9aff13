"""Derived iterator operations over the primitives of an iterator whose state is a sequence and a position in it."""
from api import *
HARNESS = ['C20.cpp']
ASSUMPTIONS = ['the primitives of the iterator are those of positions: equal compares sequence and position, distance_to is the other position minus this one, advance and increment move the position', 'positions stay within half of the range of ptrdiff_t (their differences and moved positions are representable)']
H_ = 1 << 62
def pos(c, st, nm): v = fresh_int(nm, -H_, H_); st.assume(z3.And(v > -H_, v < H_)); return v
def seq(c, st, nm='seq'): 
    o = new_obj(st, 'A', 'param', nm); o.esz = 8; o.n = fresh_int('n', 0, H_); st.assume(z3.And(o.n >= 0, o.n < H_)); o.fields[0] = Field('i64', fresh_arr('old'), 8); return Ptr(o.id, 0, 0)
def mk(c, st, how, b, p): a = c.raw(st, None, 'iterator'); st, _ = c.quiet_run(st, how, [a, b, p]); return st, a
def sg(c, st, v): return zi(c.ex.norm_s(st, v, 64))
def at(c, st, a, sfx=''):
    st, p = c.quiet_run(st, 'vf_pos' + sfx, [a]); st, b = c.quiet_run(st, 'vf_base' + sfx, [a])
    m = None
    if sfx != '_c': st, m = c.quiet_run(st, 'vf_moves' + sfx, [a]); m = sg(c, st, m)
    return sg(c, st, p), b, m
def two(c, hows, same_seq=None):
    st = c.state(); b = seq(c, st); p, q = pos(c, st, 'p'), pos(c, st, 'q'); b2 = b if c.case != 'two sequences' else seq(c, st, 'other')
    st, x = mk(c, st, hows[0], b, p); st, y = mk(c, st, hows[1], b2, q); return st, x, y, p, q
def rel(w, hows, f, what, cases=('one sequence',)):
    @contract(w, w[3:], cases=list(cases))
    def g(c):
        st, x, y, p, q = two(c, hows); one = c.case == 'one sequence'
        for o in c.returns(c.run(st, [x, y])): c.prove(o.st, zb(tobool(o.val)) == f(p, q, one), what)
I2 = ('vf_it', 'vf_it'); BOTH = ('one sequence', 'two sequences'); K = {'': I2, '_c': ('vf_cit', 'vf_cit'), '_p': ('vf_pit', 'vf_pit'), '_f': ('vf_fw', 'vf_fw')}
for s, h in K.items():
    rel('vf_eq' + s, h, lambda p, q, one: p == q if one else z3.BoolVal(False), 'equality is what the primitive says', BOTH)
    rel('vf_ne' + s, h, lambda p, q, one: p != q if one else z3.BoolVal(True), 'inequality is the opposite of equality', BOTH)
for w, f in (('lt', lambda p, q, one: p < q), ('le', lambda p, q, one: p <= q), ('gt', lambda p, q, one: p > q), ('ge', lambda p, q, one: p >= q)):
    for s in {'lt': ('', '_c', '_p'), 'ge': ('', '_c'), 'gt': ('', '_p'), 'le': ('',)}[w]: rel(f'vf_{w}{s}', K[s], f, 'the order is that of positions')
rel('vf_eq_mixed', ('vf_it', 'vf_cit'), lambda p, q, one: p == q if one else z3.BoolVal(False), 'equality of convertible iterators', BOTH)
def diff(w, h):
    @contract(w)
    def g(c):
        c.case = 'one sequence'; st, x, y, p, q = two(c, h)
        for o in c.returns(c.run(st, [x, y])): c.prove(o.st, sg(c, o.st, o.val) == p - q, 'the difference is that of positions')
    g.__name__ = w
for w, h in (('vf_diff', I2), ('vf_diff_p', K['_p'])): 
    diff(w, h); CONTRACTS[-1]['name'] = w[3:]
def step(w, sg_, inplace):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); b = seq(c, st); p, n = pos(c, st, 'p'), pos(c, st, 'offset'); st, x = mk(c, st, 'vf_it', b, p)
        if inplace:
            for o in c.returns(c.run(st, [x, n])):
                q, b1, m = at(c, o.st, x); c.prove(o.st, q == p + sg_ * n, 'the operand moves by exactly the offset'); c.check(same(b1, b), 'in its sequence'); c.check(same(o.val, x), 'and is returned itself')
        else:
            r = c.raw(st, None, 'result')
            for o in c.returns(c.run(st, [r, x, n])):
                q, b1, m = at(c, o.st, r); c.prove(o.st, q == p + sg_ * n, 'the result is exactly the offset away'); c.check(same(b1, b), 'in the same sequence')
                q, b1, m = at(c, o.st, x); c.prove(o.st, z3.And(q == p, m == 0), 'the operand is unchanged'); c.check(same(b1, b), 'and its sequence')
step('vf_plus', 1, 0); step('vf_minus', -1, 0); step('vf_plus_eq', 1, 1); step('vf_minus_eq', -1, 1)
def inc(w, how, d):
    s = '_f' if how == 'vf_fw' else ''
    @contract(w, w[3:])
    def g(c):
        st = c.state(); b = seq(c, st); p = pos(c, st, 'p'); st, x = mk(c, st, how, b, p)
        for o in c.returns(c.run(st, [x])):
            q, b1, m = at(c, o.st, x, s); c.prove(o.st, q == p + d, 'the iterator moves by one'); c.check(same(b1, b), 'in its sequence'); c.check(same(o.val, x), 'and is returned itself')
inc('vf_inc', 'vf_it', 1); inc('vf_dec', 'vf_it', -1); inc('vf_inc_f', 'vf_fw', 1)
@contract('vf_post_f')
def post_f(c):
    st = c.state(); b = seq(c, st); p = pos(c, st, 'p'); st, x = mk(c, st, 'vf_fw', b, p); r = c.raw(st, None, 'result')
    for o in c.returns(c.run(st, [r, x])):
        q, b1, m = at(c, o.st, r, '_f'); c.prove(o.st, z3.And(q == p, m == 0), 'the old position is returned'); c.check(same(b1, b), 'in its sequence')
        q, b1, m = at(c, o.st, x, '_f'); c.prove(o.st, q == p + 1, 'the iterator moves by one'); c.check(same(b1, b), 'in its sequence')
def deref(w, how):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); b = seq(c, st); p = pos(c, st, 'p'); st.assume(z3.And(p >= 0, p < st.objs[b.obj].n)); st, x = mk(c, st, how, b, p)
        for o in c.returns(c.run(st, [x])):
            if c.check(isinstance(o.val, Ptr) and o.val.obj == b.obj and o.val.off == 0, 'an element of the sequence is designated'): c.prove(o.st, zi(o.val.idx) == p, 'the one at the position')
for w, h in (('vf_deref', 'vf_it'), ('vf_arrow', 'vf_it'), ('vf_deref_f', 'vf_fw'), ('vf_arrow_f', 'vf_fw'), ('vf_deref_p', 'vf_pit')): deref(w, h)
# ---- pairs of iterators
def pair(c, st, b1, p1, b2, p2, how='vf_pair'):
    st, x = mk(c, st, 'vf_it', b1, p1); st, y = mk(c, st, 'vf_it', b2, p2); r = c.raw(st, None, 'pair'); st, _ = c.quiet_run(st, how, [r, x, y]); return st, r
@contract('vf_pair_adv')
def pair_adv(c):
    st = c.state(); b1, b2 = seq(c, st), seq(c, st); p1, p2, n = pos(c, st, 'p'), pos(c, st, 'q'), pos(c, st, 'offset'); st, r = pair(c, st, b1, p1, b2, p2)
    for o in c.returns(c.run(st, [r, n])):
        s, x = c.quiet_run(o.st, 'vf_pair_1', [r]); s, y = c.quiet_run(s, 'vf_pair_2', [r])
        q, b, m = at(c, s, x); c.prove(s, q == p1 + n, 'the first component moves by the offset'); c.check(same(b, b1), 'in its sequence')
        q, b, m = at(c, s, y); c.prove(s, q == p2 + n, 'and so does the second'); c.check(same(b, b2), 'in its sequence')
def pair_eq(w, how):
    @contract(w, w[3:], cases=['same sequences', 'first differs', 'second differs'])
    def g(c):
        st = c.state(); b1, b2 = seq(c, st), seq(c, st); ps = [pos(c, st, 'p') for _ in range(4)]; st, r = pair(c, st, b1, ps[0], b2, ps[1], how)
        st, t = pair(c, st, seq(c, st) if c.case == 'first differs' else b1, ps[2], seq(c, st) if c.case == 'second differs' else b2, ps[3])
        for o in c.returns(c.run(st, [r, t])): c.prove(o.st, zb(tobool(o.val)) == (z3.And(ps[0] == ps[2], ps[1] == ps[3]) if c.case == 'same sequences' else z3.BoolVal(False)), 'pairs are equal exactly when both components are')
pair_eq('vf_pair_eq', 'vf_pair'); pair_eq('vf_pair_eq_mixed', 'vf_pair_c')
@contract('vf_pair')
def pair_ctor(c):
    st = c.state(); b1, b2 = seq(c, st), seq(c, st); p1, p2 = pos(c, st, 'p'), pos(c, st, 'q'); st, x = mk(c, st, 'vf_it', b1, p1); st, y = mk(c, st, 'vf_it', b2, p2); r = c.raw(st, None, 'pair')
    for o in c.returns(c.run(st, [r, x, y])):
        s, x = c.quiet_run(o.st, 'vf_pair_1', [r]); s, y = c.quiet_run(s, 'vf_pair_2', [r])
        q, b, m = at(c, s, x); c.prove(s, q == p1, 'the first component is the first iterator'); c.check(same(b, b1), 'in its sequence')
        q, b, m = at(c, s, y); c.prove(s, q == p2, 'the second component is the second'); c.check(same(b, b2), 'in its sequence')
