"""Building and converting sequences: length and contents of the result, and everything else left as it was."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import arrays, seqs
HARNESS = ['C13.cpp']
ASSUMPTIONS = ['a function gives equal results for equal arguments and returns normally', 'converting an element gives a value that depends on the element alone', 'sequences of at most 2^57 elements']
S = z3.Select
def fun(tys): return lambda *ts: models.FUN('call', tys, z3.IntSort())(*ts)
def seq(c, st, new='vf_new_E', name='a'):
    p = c.raw(st, None, name); st, _ = c.quiet_run(st, new, [p]); sid, n, a = seqs.arb_seq(st, p, name); st.assume(zi(n) <= 1 << 57); return st, (p, n, a)
def holds(c, st, p, n, cont, what='result'):
    """the sequence at p has length n and cont(q) at position q"""
    if not c.check(p.off in st.objs[p.obj].cells and seqs.alive_seq(st, p), f'{what} exists'): return
    k, b = seqs.view(st, p); q = fresh_int('q'); c.prove(st, zi(k) == zi(n), f'{what}: length'); c.prove(st, z3.Implies(z3.And(0 <= q, q < zi(n)), S(b, q) == cont(q)), f'{what}: elements in order')
def kept(c, st, *xs):
    for i, (p, n, a) in enumerate(xs): holds(c, st, p, n, lambda q: S(a, q), f'argument {i}')
def joined(n, a, b): return lambda q: z3.If(q < zi(n), S(a, q), S(b, q - zi(n)))
def appending(w, new):
    @contract(w, w[3:], cases=['another', 'itself'])
    def g(c):
        st = c.state(); st, x = seq(c, st, new); y = x
        if c.case == 'another': st, y = seq(c, st, new, 'b')
        for o in c.returns(c.run(st, [x[0], y[0]])):
            holds(c, o.st, x[0], zi(x[1]) + zi(y[1]), joined(x[1], x[2], y[2]), 'the sequence')
            if y is not x: kept(c, o.st, y)
            c.noleak(o.st)
appending('vf_append_list', 'vf_new_E'); appending('vf_concatenate', 'vf_new_E'); appending('vf_linked_append_list', 'vf_new_linked'); appending('vf_linked_concatenate', 'vf_new_linked')
def appending_value(w, new, own):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); st, (p, n, a) = seq(c, st, new)
        if own: i = fresh_int('i', 0, 1 << 60) if own == 'index' else z3.IntVal(0); st.assume(z3.And(i >= 0, i < zi(n))); args = [i] if own == 'index' else []; x = S(a, i)
        else: xp, x = c.op(st, 'E', 'x'); args = [xp]
        for o in c.returns(c.run(st, [p] + args)):
            holds(c, o.st, p, zi(n) + 1, lambda q: z3.If(q < zi(n), S(a, q), x), 'the sequence'); c.noleak(o.st)
appending_value('vf_append', 'vf_new_E', None); appending_value('vf_append_own', 'vf_new_E', 'index'); appending_value('vf_linked_append', 'vf_new_linked', None); appending_value('vf_linked_append_own', 'vf_new_linked', 'front')
@contract('vf_catenate', cases=['two lists', 'one list twice'])
def catenate(c):
    st = c.state(); st, x = seq(c, st); y = x; r = c.raw(st, None, 'result')
    if c.case == 'two lists': st, y = seq(c, st, 'vf_new_E', 'b')
    for o in c.returns(c.run(st, [r, x[0], y[0]])): holds(c, o.st, r, zi(x[1]) + zi(y[1]), joined(x[1], x[2], y[2])); kept(c, o.st, x, y); c.noleak(o.st)
@contract('vf_catenate_value')
def catenate_value(c):
    st = c.state(); st, x = seq(c, st); r = c.raw(st, None, 'result'); vp, v = c.op(st, 'E', 'v')
    for o in c.returns(c.run(st, [r, x[0], vp])): holds(c, o.st, r, zi(x[1]) + 1, lambda q: z3.If(q < zi(x[1]), S(x[2], q), v)); kept(c, o.st, x); c.noleak(o.st)
for w in ('vf_apply', 'vf_elementwise'):
    @contract(w, w[3:])
    def mapping(c):
        st = c.state(); st, x = seq(c, st); r = c.raw(st, None, 'result'); fp, f = c.op(st, 'G', 'f'); F = fun(['vf::G', 'vf::E const&'])
        for o in c.returns(c.run(st, [r, fp, x[0]])): holds(c, o.st, r, x[1], lambda q: F(f, S(x[2], q))); kept(c, o.st, x); c.noleak(o.st)
@contract('vf_elementwise2')
def mapping2(c):
    st = c.state(); st, x = seq(c, st); st, y = seq(c, st, 'vf_new_V', 'b'); st.assume(zi(x[1]) == zi(y[1])); r = c.raw(st, None, 'result'); fp, f = c.op(st, 'G', 'f'); F = fun(['vf::G', 'vf::E const&', 'vf::V const&'])
    for o in c.returns(c.run(st, [r, fp, x[0], y[0]])): holds(c, o.st, r, x[1], lambda q: F(f, S(x[2], q), S(y[2], q))); kept(c, o.st, x, y); c.noleak(o.st)
# ---- conversions
def conv(k): return {'E': lambda t: t, 'K': lambda t: models.FUN('make_E', ['vf::K'], z3.IntSort())(t), 'V': lambda t: models.FUN('make_E', ['vf::V'], z3.IntSort())(t)}[k]
def converting(w, new, kind='E'):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); st, x = seq(c, st, new); r = c.raw(st, None, 'result')
        for o in c.returns(c.run(st, [r, x[0]])): holds(c, o.st, r, x[1], lambda q: conv(kind)(S(x[2], q))); kept(c, o.st, x); c.noleak(o.st)
for w in ('vf_list_vector', 'vf_list_copy', 'vf_make_list', 'vf_make_list_list', 'vf_linked_list', 'vf_linked_range_list'): converting(w, 'vf_new_E')
for w in ('vf_linked_std', 'vf_linked_copy'): converting(w, 'vf_new_linked')
converting('vf_list_convert', 'vf_new_K', 'K'); converting('vf_list_explicit', 'vf_new_V', 'V'); converting('vf_linked_list_convert', 'vf_new_K', 'K'); converting('vf_linked_convert', 'vf_new_linked_K', 'K')
def single(w, count=False, value=True):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); r = c.raw(st, None, 'result'); args = []; n = 1
        if count: n = fresh_int('n', 0, (1 << 32) - 1); st.assume(z3.And(n >= 0, n < 1 << 32)); args = [n]
        x = DEFAULT('E')
        if value: xp, x = c.op(st, 'E', 'x'); args.append(xp)
        for o in c.returns(c.run(st, [r] + args)): holds(c, o.st, r, n, lambda q: x); c.noleak(o.st)
single('vf_list_value'); single('vf_make_list_value'); single('vf_linked_fill', True); single('vf_linked_size', True, False)
@contract('vf_linked_range')
def linked_range(c):
    st = c.state(); n = fresh_int('n', 0, 1 << 58); st.assume(z3.And(n >= 0, n <= 1 << 58)); b = new_obj(st, 'A', 'param', 'src'); b.esz = SIZES['vf::E']; b.n = n; a = fresh_arr('src'); b.fields[0] = Field('op:E', a, b.esz); r = c.raw(st, None, 'result')
    for o in c.returns(c.run(st, [r, Ptr(b.id, 0, 0), Ptr(b.id, n, 0)])): holds(c, o.st, r, n, lambda q: S(a, q)); c.noleak(o.st)
@contract('vf_make_array_value')
def make_array_value(c):
    st = c.state(); r = c.raw(st, None, 'result'); xp, x = c.op(st, 'E', 'x')
    for o in c.returns(c.run(st, [r, xp])): arrays.check(c, o.st, r, 1, lambda q: x, 'result'); c.noleak(o.st)
for w in ('vf_make_array', 'vf_make_array_list'):
  @contract(w, w[3:])
  def make_array(c):
    st = c.state(); st, x = seq(c, st); r = c.raw(st, None, 'result');
    for o in c.returns(c.run(st, [r, x[0]])): arrays.check(c, o.st, r, x[1], lambda q: S(x[2], q), 'result'); kept(c, o.st, x); c.noleak(o.st)
@contract('vf_make_array_copy', cases=['any', 'without storage'])
def make_array_copy(c):
    st = c.state(); a = arrays.make(c, st, 'block' if c.case == 'any' else 'null'); r = c.raw(st, None, 'result')
    for o in c.returns(c.run(st, [r, a.p])): arrays.check(c, o.st, r, a.n, lambda q: S(a.arr, q), 'result'); arrays.check(c, o.st, a.p, a.n, lambda q: S(a.arr, q), 'argument'); c.noleak(o.st)
@contract('vf_make_list_array', cases=['any', 'without storage'])
def make_list_array(c):
    st = c.state(); a = arrays.make(c, st, 'block' if c.case == 'any' else 'null'); r = c.raw(st, None, 'result')
    for o in c.returns(c.run(st, [r, a.p])): holds(c, o.st, r, a.n, lambda q: S(a.arr, q)); arrays.check(c, o.st, a.p, a.n, lambda q: S(a.arr, q), 'argument'); c.noleak(o.st)
for w in ('vf_make_list_set', 'vf_set_list'):
    @contract(w, w[3:])
    def from_set(c):
        st = c.state(); m = fresh_arr('m', 'bool'); o = new_nodes(st, 'set', 'op:K', m); enum_facts(st, m); p = c.raw(st, None, 's'); st.w(p.obj).cells[0] = (Cont('set', o.id), 48); r = c.raw(st, None, 'result')
        for x in c.returns(c.run(st, [r, p])): holds(c, x.st, r, CARD(m), lambda q: NTH(m, q)); s = x.st.objs[x.st.objs[p.obj].cells[0][0].store]; q = fresh_int('q'); c.prove(x.st, S(s.member, q) == S(m, q), 'the set is unchanged'); c.noleak(x.st)
