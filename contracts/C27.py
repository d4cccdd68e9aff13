"""The checking macros over arbitrary values, comparison outcomes and exceptions, started from arbitrary counts."""
from api import *
HARNESS = ['C27.cpp']
ASSUMPTIONS = ['the counts of failures and skipped tests stay below 2^31', 'floating-point arithmetic is taken over the reals', 'for integers, the difference of the two values and the tolerance are those of the argument expressions; the operations inside the argument expressions do not overflow',
               'the output streams accept what is written to them', 'operators of the values compared are functions of the values']
LIM = (1 << 31) - 8
def setup(c):
    st = c.state(); ps = []
    for f in ('vf_failures', 'vf_skipped'):
        st, p = c.quiet_run(st, f, []); t = fresh_int(f[3:], 0, LIM); st.assume(z3.And(t >= 0, t < LIM)); o = st.w(p.obj); o.cells[p.off] = (t, 4); ps.append((p, t))
    st, p = c.quiet_run(st, 'vf_class', []); streams.put_str(c.ex, st, p, (('var', 'class'),), 0)
    c.F, c.S = ps; return st
def counts(c, st, fails, skips=0):
    for (p, t), d, n in ((c.F, fails, 'failures'), (c.S, skips, 'skipped tests')):
        c.prove(st, zi(c.ex.norm_s(st, c.cell(st, p, 0), 32)) == t + (d if isinstance(d, int) else z3.If(d, 1, 0)), f'the count of {n} is right')
def verdict(c, outs, bad, what=None):
    """one failure exactly when bad holds; always continues"""
    both = set()
    for o in c.returns(outs, what or 'goes on after the check'): counts(c, o.st, bad); c.noleak(o.st)
def V(c, st, k, nm): return c.op(st, k, nm)
def two(fn, kind, cond):
    @contract(fn, fn[3:])
    def g(c):
        st = setup(c); (xp, x), (yp, y), (zp, z) = (c.op(st, kind, n) for n in 'xyz'); p = fresh_bool('p')
        verdict(c, c.run(st, [xp, yp, zp, p]), cond(z3.If(p, x, y), z3.If(p, y, z)))
        
NE = lambda a, b: a != b
for m in ('check', 'same', 'same_as', 'equal', 'equals'): two('vf_' + m, 'V', NE)
two('vf_not_equal', 'V', lambda a, b: a == b); two('vf_check_warn', 'V', lambda a, b: 0); two('vf_less', 'K', lambda a, b: z3.Not(a < b))
for n, f in dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b, eq=lambda a, b: a == b, ne=NE).items():
    for m in ('compare', 'result_compare'): two(f'vf_{m}_{n}', 'K', lambda a, b, f=f: z3.Not(f(a, b)))
I = {'int': (32, 1), 'long': (64, 1), 'uint': (32, 0), 'ulong': (64, 0), 'short': (16, 1), 'uchar': (8, 0), 'char': (8, 1)}
NANS = []
def num(st, ty, nm):
    if ty in ('double', 'float'): t = fresh_real(nm); n = fresh_bool(nm + ' is not a number'); NANS.append(n); return Flt(t, n), t
    w, s = I[ty]; lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1); t = fresh_int(nm, lo, hi); st.assume(z3.And(t >= lo, t <= hi)); return t, t
def scalars(fn, tys, bad, pre=None):
    @contract(fn, fn[3:])
    def g(c):
        NANS.clear(); st = setup(c); xs = [num(st, t, f'a{i}') for i, t in enumerate(tys)]; ts = [t for _, t in xs]
        if pre: st.assume(pre(*ts))
        verdict(c, c.run(st, [a for a, _ in xs]), z3.Or(*NANS, bad(*ts)) if NANS else bad(*ts))
scalars('vf_equal_long', ['long', 'long'], NE); scalars('vf_equals_double', ['double', 'double'], NE); scalars('vf_equal_mixed', ['int', 'long'], NE); scalars('vf_equals_string_free', ['char', 'char'], NE); scalars('vf_assert_int', ['long'], lambda n: n == 0)
@contract('vf_assert')
def assertion(c):
    st = setup(c); p, q = fresh_bool('p'), fresh_bool('q'); verdict(c, c.run(st, [p, q]), z3.Not(z3.If(p, q, z3.Not(q))))
@contract('vf_unary')
def unary(c):
    st = setup(c); (xp, x), (yp, y) = c.op(st, 'V', 'x'), c.op(st, 'V', 'y'); p = fresh_bool('p'); f = models.FUN('odd', ['vf::V const&'], z3.BoolSort())
    verdict(c, c.run(st, [xp, yp, p]), z3.Not(f(z3.If(p, x, y))))
@contract('vf_binary')
def binary(c):
    st = setup(c); (xp, x), (yp, y), (kp, k), (lp, l) = c.op(st, 'V', 'x'), c.op(st, 'V', 'y'), c.op(st, 'K', 'k'), c.op(st, 'K', 'l'); p = fresh_bool('p'); f = models.FUN('near_to', ['vf::V const&', 'vf::K const&'], z3.BoolSort())
    verdict(c, c.run(st, [xp, yp, kp, lp, p]), z3.Not(f(z3.If(p, x, y), z3.If(p, k, l))))
def dist(a, b): return z3.If(a < b, b - a, a - b)
W = {'int': ('int',) * 3, 'long': ('long',) * 3, 'uint': ('uint',) * 3, 'ulong': ('ulong',) * 3, 'short': ('short', 'short', 'int'), 'uchar': ('uchar', 'uchar', 'int'), 'mixed': ('int', 'uint', 'int'), 'mixed2': ('uint', 'long', 'long'), 'ulong_int': ('ulong', 'ulong', 'int'),
     'int_uint': ('int', 'int', 'uint'), 'double': ('double',) * 3, 'float': ('float',) * 3, 'double_int': ('double', 'int', 'double'), 'int_double': ('int', 'double', 'double'), 'int_real_tolerance': ('int', 'int', 'double')}
def real(t): return z3.ToReal(t) if z3.is_int(t) else t
for n, tys in W.items():
    fl = any(t in ('double', 'float') for t in tys)
    scalars('vf_within_' + n, tys, (lambda x, y, t: z3.Not(dist(real(x), real(y)) <= real(t))) if fl else (lambda x, y, t: z3.Not(dist(x, y) <= t)), None if fl else lambda x, y, t: dist(x, y) < 1 << 64)
INR = lambda e: z3.And(e >= -(1 << 31), e < 1 << 31)
scalars('vf_within_expr', ['int'] * 6, lambda a, b, x, y, t, s: z3.Not(dist(a + b, x + y) <= t + s), lambda a, b, x, y, t, s: z3.And(INR(a + b), INR(x + y), INR(t + s)))
@contract('vf_within_expr_double')
def within_expr_double(c):
    NANS.clear(); st = setup(c); xs = [num(st, 'double', n) for n in 'abcdts']; na, nb, nc, nd, nt, ns = NANS; a, b, x, y, t, s = (v for _, v in xs); p = fresh_bool('p')
    verdict(c, c.run(st, [v for v, _ in xs] + [p]), z3.Or(z3.If(p, na, nb), nc, nd, z3.If(p, nt, ns), z3.Not(dist(z3.If(p, a, b), x - y) <= z3.If(p, t, s))))
# ---- exceptions: what the statement does, and which outcomes are expected
RAISED = {'nothing': 0, 'out_of_range': 1, 'runtime_error': 2, 'special': 3, 'other': 4}
def raising(fn, bad, args=lambda c, st: [], what=None):
    for w, k in RAISED.items():
        b = bad(w)
        if b is None: continue
        @contract(fn, f'{fn[3:]}[{w}]')
        def g(c, k=k, b=b):
            st = setup(c); verdict(c, c.run(st, [k] + args(c, st)), int(b), 'goes on after the statement')
STD = ('out_of_range', 'runtime_error', 'special')
def expects(*ok, other=None): return lambda w: False if w in ok else True if w in STD + ('nothing',) else other
raising('vf_throws', expects('out_of_range')); raising('vf_throws_base', expects(*STD)); raising('vf_throws_logic', expects('out_of_range')); raising('vf_throws_special', expects('special')); raising('vf_throws_other', expects('other'))
raising('vf_fail', lambda w: w == 'nothing')
val = lambda c, st: [c.op(st, 'V', 'v')[0]]
for m, a in (('call', None), ('try', None), ('evaluate', val)): raising('vf_' + m, lambda w: w != 'nothing', a or (lambda c, st: []))
@contract('vf_assign', cases=list(RAISED))
def assign(c):
    st = setup(c); (tp, t), (vp, v) = c.op(st, 'V', 'to'), c.op(st, 'V', 'v'); w = c.case; outs = c.run(st, [RAISED[w], tp, vp]); verdict(c, outs, int(w != 'nothing'))
    for o in outs:
        if o.kind == 'ret': c.prove(o.st, c.cell(o.st, tp).t == (v if w == 'nothing' else t), 'the variable is assigned exactly when the expression is evaluated')
for f, b in (('same_type_true', 0), ('same_type_false', 1), ('equivalent_true', 0), ('equivalent_false', 1), ('static_true', 0), ('static_false', 1), ('concept_true', 0), ('concept_false', 1), ('execute', 0), ('declare', 0), ('default_construct', 0)):
    @contract('vf_' + f, f)
    def g(c, b=b): st = setup(c); verdict(c, c.run(st, []), b)
for f in ('warn', 'notify', 'print', 'comment', 'title', 'construct', 'assign_construct', 'named_construct'):
    @contract('vf_' + f, f)
    def g(c): st = setup(c); verdict(c, c.run(st, val(c, st)), 0)
@contract('vf_skip', cases=list(RAISED))
def skip(c):
    st = setup(c)
    for o in c.returns(c.run(st, [RAISED[c.case]]), 'the statement is not executed'): counts(c, o.st, 0, 1)
@contract('vf_two')
def both(c):
    st = setup(c); (xp, x), (yp, y), (kp, k), (lp, l) = c.op(st, 'V', 'x'), c.op(st, 'V', 'y'), c.op(st, 'K', 'k'), c.op(st, 'K', 'l')
    for o in c.returns(c.run(st, [xp, yp, kp, lp])): c.prove(o.st, zi(c.ex.norm_s(o.st, c.cell(o.st, c.F[0]), 32)) == c.F[1] + z3.If(x != y, 1, 0) + z3.If(k < l, 0, 1), 'each check counts its own failure')
@contract('vf_under_if')
def under_if(c):
    st = setup(c); (xp, x), (yp, y) = c.op(st, 'V', 'x'), c.op(st, 'V', 'y'); g = fresh_bool('g')
    for o in c.returns(c.run(st, [g, xp, yp])): counts(c, o.st, z3.And(g, x != y), z3.Not(g))
@contract('vf_suite')
def suite(c):
    st = setup(c); p = c.raw(st, 1, 'ran'); st.w(p.obj).cells[0] = (0, 1)
    for o in c.returns(c.run(st, [p])): counts(c, o.st, 0); c.check(same(simp(c.cell(o.st, p)), 1), 'the suite is run', str(c.cell(o.st, p)))
