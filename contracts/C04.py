from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import arrays as ar, models
HARNESS = ['C03.cpp']
S = z3.Select
LIM = (1 << 63) - 1
LIFE = ar.LIFE
def ok(c, outs): return refused(c, outs, None) if LIFE else c.returns(outs)
def refused(c, outs, n, esz=24):
    """outcomes that return; a request that cannot be met is refused by an allocation error"""
    r = []
    for o in outs:
        if o.kind == 'ret': r.append(o)
        elif o.kind == 'throw' and c.ex.derives(o.val.ti, '_ZTISt9bad_alloc'):
            if not LIFE: c.prove(o.st, mul(esz, zi(n)) > LIM, 'refused only when memory cannot hold the elements')
            for x in getattr(c, 'arrays', ()): ar.check(c, o.st, x.p, x.n, None, 'after a refused request', x.ctor, x.dctor, x.kind)
            c.noleak(o.st)
        elif LIFE and o.kind == 'throw': c.noleak(o.st)
        else: c.fails(o.st, f'returns or refuses (reached {o.kind})')
    c.check(bool(r), 'some execution returns')
    return r
def fresh_n(c, st, name="n"): n = fresh_int(name, 0, (1 << 64) - 1); st.assume(z3.And(n >= 0, n < 1 << 64)); return n

@contract('vf_default')
def default(c):
    st = c.state(); p = c.raw(st, None)
    for o in ok(c, c.run(st, [p])): ar.check(c, o.st, p, 0, None, 'default construction'); c.noleak(o.st)

@contract('vf_size')
def size(c):
    st = c.state(); p = c.raw(st, None); n = fresh_n(c, st)
    for o in refused(c, c.run(st, [p, n]), n): ar.check(c, o.st, p, n, lambda q: models.DEFAULT('E'), 'construction from a size'); c.noleak(o.st)

@contract('vf_uninit')
def uninit(c):
    st = c.state(); p = c.raw(st, None); n = fresh_n(c, st)
    for o in refused(c, c.run(st, [p, n]), n): ar.check(c, o.st, p, n, None, 'uninitialised construction', raw=True); c.noleak(o.st)

@contract('vf_filled')
def filled(c):
    st = c.state(); p = c.raw(st, None); n = fresh_n(c, st); xp, x = c.op(st, 'E', 'x')
    for o in refused(c, c.run(st, [p, n, xp]), n): ar.check(c, o.st, p, n, lambda q: x, 'construction from a size and a value'); c.noleak(o.st)

def source(c, st, kind, n, name='src'):
    """n contiguous elements owned by the caller"""
    o = new_obj(st, 'A', 'param', name); o.esz = SIZES['vf::' + kind] if kind != 'double' else 8; o.n = n; a = fresh_arr(name, 'real' if kind == 'double' else 'int')
    o.fields[0] = Field('flt' if kind == 'double' else 'op:' + kind, a, o.esz); return Ptr(o.id, 0, 0), a
def ilist(c, st, p, n): return [p, n]

@contract('vf_ilist')
def from_list(c):
    st = c.state(); p = c.raw(st, None); n = fresh_int('n', 0, 1 << 58); st.assume(z3.And(n >= 0, n <= 1 << 58)); sp, a = source(c, st, 'E', n)
    for o in ok(c, c.run(st, [p, sp, n])): ar.check(c, o.st, p, n, lambda q: S(a, q), 'construction from a list'); c.noleak(o.st)

@contract('vf_ilist_par')
def from_list_with_parameter(c):
    st = c.state(); p = c.raw(st, None); n = fresh_int('n', 0, 1 << 58); st.assume(z3.And(n >= 0, n <= 1 << 58)); sp, a = source(c, st, 'double', n); qp, par = c.op(st, 'P', 'par')
    mk = models.FUN('make_E', ['double', 'vf::P const&'], z3.IntSort())
    for o in ok(c, c.run(st, [p, sp, n, qp])): ar.check(c, o.st, p, n, lambda q: mk(S(a, q), par), 'construction from a list and a parameter'); c.noleak(o.st)

@contract('vf_generate')
def generate(c):
    st = c.state(); p = c.raw(st, None); n = fresh_n(c, st); gp, g = c.op(st, 'G', 'g')
    call = models.FUN('call', ['vf::G', 'unsigned long'], z3.IntSort())
    for o in refused(c, c.run(st, [p, n, gp]), n): ar.check(c, o.st, p, n, lambda q: call(g, q), 'generation'); c.noleak(o.st)

@contract('vf_range')
def from_range(c):
    st = c.state(); p = c.raw(st, None); N = fresh_int('N', 0, 1 << 58); b = fresh_int('b', 0, 1 << 58); e = fresh_int('e', 0, 1 << 58)
    st.assume(z3.And(0 <= b, b <= e, e <= N, N <= 1 << 58)); sp, a = source(c, st, 'E', N)
    for o in ok(c, c.run(st, [p, Ptr(sp.obj, b), Ptr(sp.obj, e)])): ar.check(c, o.st, p, simp(e - b), lambda q: S(a, q + b), 'construction from a range'); c.noleak(o.st)

def conv(kind, ctor, dctor, par=False):
    def g(c):
        st = c.state(); s = ar.make(c, st, c.case, ctor, dctor, kind, 's'); p = c.raw(st, None); args = [p, s.p]
        mk = models.FUN('make_E', [f'vf::{kind} const&'] + (['vf::P const&'] if par else []), z3.IntSort()); ex = ()
        if par: qp, pv = c.op(st, 'P', 'par'); args.append(qp); ex = (pv,)
        for o in ok(c, c.run(st, args)):
            ar.check(c, o.st, p, s.n, lambda q: mk(S(s.arr, q), *ex), 'conversion')
            ar.check(c, o.st, s.p, s.n, lambda q: S(s.arr, q), 'source unchanged', ctor, dctor, kind); c.noleak(o.st)
    return g
contract('vf_conv', 'conversion', ['block', 'null'])(conv('K', 'vf_ksize', 'vf_kdefault'))
contract('vf_econv', 'explicit_conversion', ['block', 'null'])(conv('V', 'vf_vsize', 'vf_vdefault'))
contract('vf_conv_par', 'conversion_with_parameter', ['block', 'null'])(conv('K', 'vf_ksize', 'vf_kdefault', True))

def independent(c, st, p, q, what):
    """two arrays share no storage"""
    bs = [[v.obj for v, _ in st.objs[x.obj].cells.values() if isinstance(v, Ptr) and v.obj is not None] for x in (p, q)]
    c.check(not set(bs[0]) & set(bs[1]), f'{what}: storage is not shared', st=st)

@contract('vf_copy', cases=['block', 'null'])
def copy(c):
    st = c.state(); s = ar.make(c, st, c.case, name='s'); p = c.raw(st, None)
    for o in ok(c, c.run(st, [p, s.p])):
        ar.check(c, o.st, p, s.n, lambda q: S(s.arr, q), 'copy'); ar.check(c, o.st, s.p, s.n, lambda q: S(s.arr, q), 'source unchanged'); independent(c, o.st, p, s.p, 'copy'); c.noleak(o.st)

@contract('vf_move', cases=['block', 'null'])
def move(c):
    st = c.state(); s = ar.make(c, st, c.case, name='s'); p = c.raw(st, None)
    for o in ok(c, c.run(st, [p, s.p])):
        ar.check(c, o.st, p, s.n, lambda q: S(s.arr, q), 'move'); ar.check(c, o.st, s.p, 0, None, 'source left empty'); independent(c, o.st, p, s.p, 'move'); c.noleak(o.st)

@contract('vf_destroy', cases=['block', 'null'])
def destroy(c):
    st = c.state(); s = ar.make(c, st, c.case, name='s')
    for o in ok(c, c.run(st, [s.p])): ob = o.st.w(s.p.obj); ob.cells = {}; c.noleak(o.st, name='all storage released')

PAIRS = ['block,block', 'block,null', 'null,block', 'null,null', 'same']
def pair(c, st):
    if c.case == 'same': a = ar.make(c, st, 'block', name='a'); return a, a
    f, g = c.case.split(','); return ar.make(c, st, f, name='a'), ar.make(c, st, g, name='b')

@contract('vf_assign', cases=PAIRS)
def assign(c):
    st = c.state(); a, b = pair(c, st)
    for o in ok(c, c.run(st, [a.p, b.p])):
        ar.check(c, o.st, a.p, b.n, lambda q: S(b.arr, q), 'assignment')
        if a is not b: ar.check(c, o.st, b.p, b.n, lambda q: S(b.arr, q), 'source unchanged'); independent(c, o.st, a.p, b.p, 'assignment')
        LIFE or c.check(same(o.val, a.p), 'returns the assigned array'); c.noleak(o.st)

@contract('vf_move_assign', cases=PAIRS)
def move_assign(c):
    st = c.state(); a, b = pair(c, st)
    for o in ok(c, c.run(st, [a.p, b.p])):
        ar.check(c, o.st, a.p, b.n, lambda q: S(b.arr, q), 'move assignment')
        if a is not b: ar.check(c, o.st, b.p, 0, None, 'source left empty'); independent(c, o.st, a.p, b.p, 'move assignment')
        LIFE or c.check(same(o.val, a.p), 'returns the assigned array'); c.noleak(o.st)

@contract('vf_resize', cases=['block', 'null'])
def resize(c):
    st = c.state(); a = ar.make(c, st, c.case); n = fresh_n(c, st)
    for o in refused(c, c.run(st, [a.p, n]), n): ar.check(c, o.st, a.p, n, lambda q: z3.If(q < zi(a.n), S(a.arr, q), models.DEFAULT('E')), 'resize'); c.noleak(o.st)

@contract('vf_resize_value', cases=['block', 'null', 'own element'])
def resize_value(c):
    st = c.state(); a = ar.make(c, st, 'block' if c.case == 'own element' else c.case); n = fresh_n(c, st)
    if c.case == 'own element': i = fresh_int('i', 0, 1 << 58); st.assume(z3.And(0 <= i, i < a.n)); xp, x = Ptr(a.block, i), S(a.arr, i)
    else: xp, x = c.op(st, 'E', 'x')
    for o in refused(c, c.run(st, [a.p, n, xp]), n): ar.check(c, o.st, a.p, n, lambda q: z3.If(q < zi(a.n), S(a.arr, q), x), 'resize with a value'); c.noleak(o.st)

@contract('vf_reallocate', cases=['block', 'null'])
def reallocate(c):
    st = c.state(); a = ar.make(c, st, c.case); n = fresh_int('n', 0, 1 << 58); st.assume(z3.And(n >= 0, n <= 1 << 58))
    for o in ok(c, c.run(st, [a.p, n])): ar.check(c, o.st, a.p, n, lambda q: z3.If(zi(n) == zi(a.n), S(a.arr, q), models.DEFAULT('E')), 'reallocation'); c.noleak(o.st)

@contract('vf_swap', cases=PAIRS)
def swap(c):
    st = c.state(); a, b = pair(c, st)
    for o in ok(c, c.run(st, [a.p, b.p])):
        ar.check(c, o.st, a.p, b.n, lambda q: S(b.arr, q), 'swap, first'); ar.check(c, o.st, b.p, a.n, lambda q: S(a.arr, q), 'swap, second')
        if a is not b: independent(c, o.st, a.p, b.p, 'swap')
        c.noleak(o.st)

@contract('vf_fill', cases=['block', 'null', 'own element'])
def fill(c):
    st = c.state(); a = ar.make(c, st, 'block' if c.case == 'own element' else c.case)
    if c.case == 'own element': i = fresh_int('i', 0, 1 << 58); st.assume(z3.And(0 <= i, i < a.n)); xp, x = Ptr(a.block, i), S(a.arr, i)
    else: xp, x = c.op(st, 'E', 'x')
    for o in ok(c, c.run(st, [a.p, xp])): ar.check(c, o.st, a.p, a.n, lambda q: x, 'fill'); c.noleak(o.st)

@contract('vf_fill_from', cases=['block', 'null'])
def fill_from(c):
    st = c.state(); a = ar.make(c, st, c.case); N = fresh_int('N', 0, 1 << 58); sp, s = source(c, st, 'E', N); st.assume(N >= zi(a.n))
    for o in ok(c, c.run(st, [a.p, sp])): ar.check(c, o.st, a.p, a.n, lambda q: S(s, q), 'fill from a sequence'); c.noleak(o.st)

@contract('vf_assign_range', cases=['block', 'null'])
def assign_range(c):
    st = c.state(); a = ar.make(c, st, c.case); N = fresh_int('N', 0, 1 << 58); b = fresh_int('b', 0, 1 << 58); e = fresh_int('e', 0, 1 << 58)
    st.assume(z3.And(0 <= b, b <= e, e <= N, N <= 1 << 58)); sp, s = source(c, st, 'E', N)
    for o in ok(c, c.run(st, [a.p, Ptr(sp.obj, b), Ptr(sp.obj, e)])): ar.check(c, o.st, a.p, simp(e - b), lambda q: S(s, q + b), 'range assignment'); c.noleak(o.st)

def equality(neg):
    def g(c):
        st = c.state(); a, b = pair(c, st); w = fresh_int('w')
        for o in ok(c, c.run(st, [a.p, b.p])):
            q = z3.Int('q!eq'); t = zb(tobool(o.val)); t = z3.Not(t) if neg else t
            alle = z3.And(zi(a.n) == zi(b.n), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(a.n)), S(a.arr, q) == S(b.arr, q)), patterns=[S(a.arr, q)]))
            if not LIFE: c.prove(o.st, t == alle, 'equal exactly when lengths and all elements agree')
            ar.check(c, o.st, a.p, a.n, lambda q: S(a.arr, q), 'first operand unchanged'); ar.check(c, o.st, b.p, b.n, lambda q: S(b.arr, q), 'second operand unchanged'); c.noleak(o.st)
    return g
contract('vf_equal', 'equal', PAIRS)(equality(False))
contract('vf_unequal', 'unequal', PAIRS)(equality(True))
