"""Coded variants: for every number of alternatives and every code."""
from api import *
HARNESS = ['C24.cpp']
ASSUMPTIONS = ['the visitor returns normally', 'alternatives have distinct codes (otherwise the class does not compile)']
CODES = [37, 5, 300, 1, 4294967296 + 5, 12, 90, 0, 7, 255, 256, 2, 66, 1 << 40, 8, 13]; M = 1 << 64
def u64(c, st, nm): v = fresh_int(nm, 0, M - 1); st.assume(z3.And(v >= 0, v < M)); return v
def s32(st, nm): v = fresh_int(nm, -(1 << 31), (1 << 31) - 1); st.assume(z3.And(v >= -(1 << 31), v < 1 << 31)); return v
def VISITED(t): return models.FUN('visited', ['unsigned long'], z3.IntSort())(zi(t))
def visitor(c, st, size=16):
    v = c.raw(st, size, 'visitor'); o = st.w(v.obj); o.cells[0] = (0, 8); o.cells[8] = (-1 if size != 280 else -1, 4 if c.fn.endswith('_en') else 8); return v
def outcomes(c, st, args, v, code, codes):
    """returned outcomes; aborting is right exactly for codes naming no alternative, without a call"""
    named = z3.Or(*[zi(code) == k for k in codes]) if codes else z3.BoolVal(False); n = 0; ab = 0
    for o in c.run(st, args):
        if o.kind == 'abort':
            ab += 1; c.prove(o.st, z3.Not(named), 'aborts only when the code names no alternative'); c.prove(o.st, zi(c.ex.norm_u(o.st, c.cell(o.st, v), 64)) == 0, 'without calling the visitor'); continue
        if o.kind != 'ret': c.fails(o.st, f'reached {o.kind}'); continue
        n += 1; c.prove(o.st, named, 'returns only when the code names an alternative'); c.prove(o.st, zi(c.ex.norm_u(o.st, c.cell(o.st, v), 64)) == 1, 'the visitor is called exactly once')
        c.prove(o.st, c.ex.norm_u(o.st, c.cell(o.st, v, 8), 64) == code if not c.fn.endswith('_en') else c.ex.norm_s(o.st, c.cell(o.st, v, 8), 32) == code, 'with the alternative the code names'); yield o
    c.check(ab > 0, 'an unknown code is rejected'); c.check(n > 0 or not codes, 'some alternative can be visited')
def accept(n):
    @contract(f'vf_accept_{n}', f'accept_{n}')
    def g(c):
        st = c.state(); code = u64(c, st, 'code'); v = visitor(c, st); r = c.raw(st, 24, 'result')
        for o in outcomes(c, st, [r, code, v], v, code, CODES[:n]): c.prove(o.st, c.cell(o.st, r).t == VISITED(code), 'the result of the visitor is returned')
    @contract(f'vf_note_{n}', f'note_{n}')
    def h(c):
        st = c.state(); code = u64(c, st, 'code'); v = visitor(c, st)
        for o in outcomes(c, st, [code, v], v, code, CODES[:n]): pass
    if n:
        @contract(f'vf_built_{n}', f'built_{n}')
        def b(c):
            for o in c.returns(c.run(c.state(), [])): c.prove(o.st, zi(c.ex.norm_u(o.st, o.val, 64)) == CODES[n-1], 'a variant built from an alternative carries its code')
for n in range(1, 17): accept(n)
@contract('vf_note_0')
def note_0(c):
    st = c.state(); code = u64(c, st, 'code'); v = visitor(c, st)
    for o in outcomes(c, st, [code, v], v, code, []): pass
def ref(n):
    @contract(f'vf_ref_{n}', f'ref_{n}')
    def g(c):
        st = c.state(); code = u64(c, st, 'code'); v = visitor(c, st, 272)
        for o in outcomes(c, st, [code, v], v, code, CODES[:n]):
            if c.check(isinstance(o.val, Ptr) and o.val.obj == v.obj, 'the reference the visitor returns is returned'): c.prove(o.st, zi(o.val.off) == 16 + 8 * (zi(code) % 32), 'the very one')
for n in (1, 4, 9, 16): ref(n)
@contract('vf_accept_en')
def accept_enum(c):
    st = c.state(); code = s32(st, 'code'); v = visitor(c, st); r = c.raw(st, 24, 'result')
    for o in outcomes(c, st, [r, code, v], v, code, [-3, 7, 1000000, 0]): c.prove(o.st, c.cell(o.st, r).t == VISITED(z3.If(code < 0, code + M, code)), 'the result of the visitor is returned')
for w in ('vf_code', 'vf_copy'):
    @contract(w, w[3:])
    def code_(c):
        st = c.state(); code = u64(c, st, 'code')
        for o in c.returns(c.run(st, [code])): c.prove(o.st, c.ex.norm_u(o.st, o.val, 64) == code, 'a variant carries the code given')
def holds(k, code_k):
    @contract(f'vf_holds_{k}', f'holds_{k}')
    def g(c):
        st = c.state(); code = u64(c, st, 'code')
        for o in c.returns(c.run(st, [code])): c.prove(o.st, zb(tobool(o.val)) == (code == code_k), 'an alternative is held exactly for its code')
for k in range(16): holds(k, CODES[k])
holds('absent', 999)
