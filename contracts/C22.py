"""Randomisers over an arbitrary generator: every draw of the generator or of a standard distribution is an unconstrained
value within the assumed contract of the standard library."""
from api import *
HARNESS = ['C22.cpp']
ASSUMPTIONS = ['std::uniform_int_distribution returns a value between the bounds it was constructed with (its precondition, lower bound not above upper bound, is an obligation)',
               'std::uniform_real_distribution returns a value between its bounds, the upper one included since rounding can reach it', 'the Mersenne twister returns arbitrary 32-bit values',
               'floating-point arithmetic is taken as exact and floating-point bounds as finite with a representable difference']
W = {'int': (32, True), 'long': (64, True), 'unsigned int': (32, False), 'unsigned long': (64, False), 'short': (16, True), 'double': None, 'float': None, 'unsigned short': (16, False), 'unsigned long long': (64, False), 'long long': (64, True)}
def bounds_of(ex, st, p, t, line):
    w = W[t]; sz = {'double': 8, 'float': 4}.get(t) or w[0] // 8; ty = t if w is None else f'i{8*sz}'
    a = ex.load(st, p, ty, sz, line); b = ex.load(st, Ptr(p.obj, p.idx, p.off + sz), ty, sz, line)
    if a is None or b is None: return None
    if isinstance(a, Undef) or isinstance(b, Undef): ex.fail(st, 'bounds of the distribution are initialised', 'memory', line); return None
    if w is None: return a.t, b.t
    n = ex.norm_s if w[1] else ex.norm_u
    return zi(n(st, a, w[0])), zi(n(st, b, w[0]))
@models.rx(r'std::uniform_(int|real)_distribution::operator\(\)')
def draw(ex, st, a, c):
    t = re.search(r'uniform_(?:int|real)_distribution<([a-z ]+)>::operator\(\)', c.dem).group(1)
    if t not in W: raise Unsupported('distribution of ' + t)
    ret_by = 0; p = a[ret_by + 2] if len(a) > 2 else a[0]
    if ex.obj(st, a[1], c.line, 'use') is None: return dead()
    ab = bounds_of(ex, st, p, t, c.line)
    if ab is None: return dead()
    lo, hi = ab
    if not ex.oblige(st, lo <= hi, 'lower bound of the distribution not above the upper bound', 'pre', c.line): return dead()
    r = fresh_real('draw') if W[t] is None else fresh_int('draw'); st.assume(z3.And(lo <= r, r <= hi)); st.ghost['draws'] = st.ghost.get('draws', 0) + 1
    return ret(st, Flt(r) if W[t] is None else r)
@models.rx(r'std::mersenne_twister_engine::operator\(\)')
def twist(ex, st, a, c):
    t = fresh_int('bits', 0, (1 << 32) - 1); st.assume(z3.And(t >= 0, t < 1 << 32)); return ret(st, t)
@models.rx(r'std::generate_canonical')
def canonical(ex, st, a, c):
    t = fresh_real('canonical'); st.assume(z3.And(t >= 0, t <= 1)); return ret(st, Flt(t))
TY = {'Int_int': 'int', 'Int_long': 'long', 'Int_uint_t': 'unsigned int', 'Int_ulong_t': 'unsigned long', 'Int_short': 'short', 'Real_double': 'double', 'Real_float': 'float'}
def arg(c, st, nm):
    w = W[TY[c.case]]
    if w is None: t = fresh_real(nm); return Flt(t), t
    n, s = w; lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
    t = fresh_int(nm, lo, hi); st.assume(z3.And(t >= lo, t <= hi)); return t, t
def value(c, o):
    w = W[TY[c.case]]
    return o.val.t if w is None else zi((c.ex.norm_s if w[1] else c.ex.norm_u)(o.st, o.val, w[0]))
def new(c):
    st = c.state(); p = c.raw(st, None, 'randomiser'); a, lo = arg(c, st, 'min'); b, hi = arg(c, st, 'max'); st.assume(lo <= hi)
    return st, p, a, b, lo, hi
def made(c):
    st, p, a, b, lo, hi = new(c); st, _ = c.quiet_run(st, 'vf_make_' + c.case, [p, a, b]); return st, p, lo, hi
def frame(c, st, before, p):
    a, b = before.objs[p.obj].cells, st.objs[p.obj].cells
    if c.check(set(a) == set(b), 'drawing keeps the bounds'):
        for q in a: c.check(same(a[q][0], b[q][0]), 'drawing keeps the bounds')
def on_all(f): return contract('vf_get_Int_int', f.__name__, cases=list(TY))(f)
@on_all
def make(c):
    st, p, a, b, lo, hi = new(c)
    for o in c.returns(c.run(st, [p, a, b], 'vf_make_' + c.case)): c.noleak(o.st)
@on_all
def get(c):
    st, p, lo, hi = made(c)
    for o in c.returns(c.run(st, [p], 'vf_get_' + c.case)):
        v = value(c, o); c.prove(o.st, lo <= v, 'not below the lower bound'); c.prove(o.st, v <= hi, 'not above the upper bound'); frame(c, o.st, st, p)
@on_all
def get_through_interface(c):
    st, p, lo, hi = made(c)
    for o in c.returns(c.run(st, [p], 'vf_base_' + c.case)):
        v = value(c, o); c.prove(o.st, lo <= v, 'not below the lower bound'); c.prove(o.st, v <= hi, 'not above the upper bound'); frame(c, o.st, st, p)
@on_all
def copy(c):
    st, p, lo, hi = made(c); d = c.raw(st, None, 'copy')
    for o in c.returns(c.run(st, [d, p], 'vf_copy_' + c.case)):
        frame(c, o.st, st, p)
        for r in c.returns(c.run(o.st, [d], 'vf_get_' + c.case)): v = value(c, r); c.prove(r.st, z3.And(lo <= v, v <= hi), 'a copy has the same bounds')
