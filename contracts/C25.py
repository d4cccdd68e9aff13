"""Pairs and tuples of references, and positional accessors."""
from api import *
HARNESS = ['C25.cpp']
def assign(w, kinds):
    n = len(kinds)
    @contract(w, w[3:], cases=['distinct variables', 'the last two variables are one'] if n > 1 and kinds[-1] == kinds[-2] else ['distinct variables'])
    def g(c):
        st = c.state(); vs = [c.op(st, k, f'v{i}') for i, k in enumerate(kinds)]; xs = [c.op(st, k, f'x{i}') for i, k in enumerate(kinds)]; other = [c.op(st, k, 'other') for k in set(kinds)]
        one = c.case != 'distinct variables'
        if one: vs[-1] = vs[-2]
        for o in c.returns(c.run(st, [p for p, _ in vs] + [p for p, _ in xs])):
            for i, ((vp, v), (xp, x)) in enumerate(zip(vs, xs)):
                if not (one and i >= n - 2): c.prove(o.st, c.cell(o.st, vp).t == x, f'variable {i} holds component {i}')
                c.prove(o.st, c.cell(o.st, xp).t == x, f'component {i} of the source is unchanged')
            if one: c.prove(o.st, z3.Or(c.cell(o.st, vs[-1][0]).t == xs[-1][1], c.cell(o.st, vs[-1][0]).t == xs[-2][1]), 'the doubled variable holds one of its components')
            for p, t in other: c.prove(o.st, c.cell(o.st, p).t == t, 'nothing else is stored to')
            c.noleak(o.st)
assign('vf_lpair', ['E', 'V']); assign('vf_lpair_same', ['E', 'E']); assign('vf_ltuple1', ['E']); assign('vf_ltuple2', ['E', 'E']); assign('vf_ltuple3', ['E'] * 3); assign('vf_ltuple5', ['E'] * 5); assign('vf_ltuple_mixed', ['E', 'V', 'K'])
def get(w):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); t = c.raw(st, 512, 'tuple'); k = c.raw(st, 8, 'k'); m = c.raw(st, 8, 'm')
        for o in c.returns(c.run(st, [t, k, m])):
            kc, mc = c.cell(o.st, k), c.cell(o.st, m)
            c.check(same(o.val, mc), 'the accessor designates the component of the given object'); c.check(same(kc, mc), 'also for a constant object')
for n, tt in [(x, 'T5') for x in ('first', 'second', 'third', 'fourth', 'fifth')] + [(x, 'T3') for x in ('first', 'second', 'third')] + [(x, 'Pr') for x in ('first', 'second')]: get(f'vf_{n}_{tt}')
for n in ('first', 'second', 'third', 'fourth', 'fifth'): get(f'vf_{n}_T7')
def elements(w, m):
    """the variables are elements of one array, in any order"""
    @contract(w, w[3:])
    def g(c):
        st = c.state(); n = fresh_int('n', 0, 1 << 58); A = fresh_arr('a'); b = new_obj(st, 'A', 'param', 'a'); b.esz = SIZES['vf::E']; b.n = n; b.bytes = mul(n, b.esz)
        st.assume(z3.And(n >= 0, n <= 1 << 58)); b.fields[0] = Field('op:E', A, b.esz); b.live[0] = z3.K(z3.IntSort(), z3.BoolVal(True))
        ix = [fresh_int(f'i{k}', 0, 1 << 58) for k in range(m)]; xs = [c.op(st, 'E', f'x{k}') for k in range(m)]; st.assume(z3.And(*[z3.And(i >= 0, i < n) for i in ix])); st.assume(z3.Distinct(*ix))
        for o in c.returns(c.run(st, [Ptr(b.id, 0, 0)] + ix + [p for p, _ in xs])):
            R = o.st.objs[b.id].fields[0].arr; q = fresh_int('q', 0, 1 << 58); s = o.st.copy(); s.assume(z3.And(q >= 0, q < n))
            for k in range(m): c.prove(s, z3.Select(R, ix[k]) == xs[k][1], f'element {k} of the list of variables holds component {k}')
            c.prove(s, z3.Implies(z3.And(*[q != i for i in ix]), z3.Select(R, q) == z3.Select(A, q)), 'every other element of the array keeps its value')
            for p, t in xs: c.prove(s, c.cell(o.st, p).t == t, 'the source is unchanged')
            c.noleak(o.st)
elements('vf_lpair_array', 2); elements('vf_ltuple_array', 3)
