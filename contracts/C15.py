"""Writers of containers: the text of an arbitrary container, whatever its size, elements and delimiters."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import arrays, seqs, sharing
HARNESS = ['C15.cpp']
ASSUMPTIONS = ['writing an element leaves the stream usable and writes a text that depends on the element alone', 'the number of elements is below 2^58']
S = z3.Select
def chars(c, st, names): 
    r = []
    for x in names: v = fresh_int(x, -128, 127); st.assume(z3.And(v >= -128, v <= 127)); r.append(v)
    return r
def lst(elem, n, op='[', cl=']', sep=',', first=None, mid=()):
    """op e0 sep e1 ... cl, where an element is written as elem(j)"""
    ch = lambda x: T.lit(x) if isinstance(x, str) else ('char', x)
    return Text((('var', 'before'), ch(op), ('fold', T.Fold(lambda j: (('if', j > 0, (ch(sep),), ()),) + tuple(elem(j))), 0, n), ch(cl)))
def written(c, st, os_, args, want, same):
    for o in c.returns(c.run(st, [os_] + args)):
        if isinstance(o.val, Ptr): c.check(o.val.obj == os_.obj, 'returns the stream')
        r = c.cell(o.st, os_, streams.KEY); c.same_text(o.st, r.text, want, 'every element once, in order, with its punctuation'); c.check(r.fmt == 0 and r.alpha is False, 'stream format unchanged'); same(o.st); c.noleak(o.st)
def op(k, a): return lambda j: (('op', k, S(a, j)),)
# ---- arrays
@contract('vf_array', cases=['any', 'without storage'])
def array(c):
    st = c.state(); a = arrays.make(c, st, 'null' if c.case == 'without storage' else 'block')
    written(c, st, c.out(st), [a.p], lst(op('E', a.arr), a.n), lambda s: arrays.check(c, s, a.p, a.n, lambda q: S(a.arr, q), 'array'))
@contract('vf_shared')
def shared(c):
    st = c.state(); a = sharing.shared(c, st)
    written(c, st, c.out(st), [a.p], lst(op('E', a.arr), a.n), lambda s: sharing.refers(c, s, a.p, a, a.owners, 'array'))
# ---- vectors and lists
def seq(c, st, new, name='a'):
    p = c.raw(st, None, name); st, _ = c.quiet_run(st, new, [p]); sid, n, a = seqs.arb_seq(st, p, name); return st, p, n, a
def kept(c, p, n, a):
    def f(st):
        if not c.check(seqs.alive_seq(st, p), 'the container exists'): return
        k, b = seqs.view(st, p); q = fresh_int('q'); c.prove(st, zi(k) == zi(n), 'size unchanged'); c.prove(st, z3.Implies(z3.And(0 <= q, q < zi(n)), S(b, q) == S(a, q)), 'elements unchanged')
    return f
def sequence(w, new, elem):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); st, p, n, a = seq(c, st, new); written(c, st, c.out(st), [p], lst(elem(a), n), kept(c, p, n, a))
E = lambda a: op('E', a)
sequence('vf_vector', 'vf_new_vector', E); sequence('vf_list', 'vf_new_list', E); sequence('vf_linked', 'vf_new_linked', E); sequence('vf_stdlist', 'vf_new_linked', E)
sequence('vf_bools', 'vf_new_bools', lambda a: lambda j: (('bool', S(a, j), False),)); sequence('vf_doubles', 'vf_new_doubles', lambda a: lambda j: (('flt', S(a, j)),))
# ---- sets and maps
def nodes(c, st, kind, name='a'):
    m = fresh_arr('m', 'bool'); o = new_nodes(st, kind, 'op:K', m); enum_facts(st, m); V = fresh_arr('val')
    p = c.raw(st, None, name); st.w(p.obj).cells[0] = (Cont(kind, o.id), 48)
    if kind == 'map': o.fields[voff(c)] = Field('op:V', V, SIZES['vf::V'])
    return p, m, V
def voff(c): return SIZES['vf::K']
def nodes_kept(c, p, m, V):
    def f(st):
        cell = st.objs[p.obj].cells.get(0)
        if not c.check(cell is not None and isinstance(cell[0], Cont) and st.objs[cell[0].store].alive, 'the container exists'): return
        o = st.objs[cell[0].store]; q = fresh_int('q'); c.prove(st, S(o.member, q) == S(m, q), 'keys unchanged')
        if V is not None and o.fields: c.prove(st, z3.Implies(S(m, q), S(o.fields[voff(c)].arr, q) == S(V, q)), 'values unchanged')
    return f
def key(m): return lambda j: (('op', 'K', NTH(m, j)),)
def item(m, V, d=':'): return lambda j: (('op', 'K', NTH(m, j)), T.lit(d) if isinstance(d, str) else ('char', d), ('op', 'V', S(V, NTH(m, j))))
for w in ('vf_set', 'vf_stdset'):
    @contract(w, w[3:])
    def set_(c):
        st = c.state(); p, m, V = nodes(c, st, 'set'); written(c, st, c.out(st), [p], lst(key(m), CARD(m), '{', '}'), nodes_kept(c, p, m, None))
for w in ('vf_map', 'vf_stdmap'):
    @contract(w, w[3:])
    def map_(c):
        st = c.state(); p, m, V = nodes(c, st, 'map'); n = CARD(m)
        want = Text((('var', 'before'), T.lit('{'), ('if', n > 0, (T.lit(' '),), ()), ('fold', T.Fold(lambda j: (('if', j > 0, (T.lit(', '),), ()),) + tuple(item(m, V)(j))), 0, n), T.lit(' }')))
        written(c, st, c.out(st), [p], want, nodes_kept(c, p, m, V))
# ---- pairs and tuples
def tup(w, kinds):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); offs = layout(c, kinds); p = c.raw(st, None, 'tuple'); ts = []
        for k, o in zip(kinds, offs): t = fresh_int(k); ts.append(t); st.w(p.obj).cells[o] = (Op(k, t), SIZES['vf::' + k])
        want = [('var', 'before'), T.lit('(')]
        for j, (k, t) in enumerate(zip(kinds, ts)): want += ([T.lit(',')] if j else []) + [('op', k, t)]
        def same(s):
            for k, o, t in zip(kinds, offs, ts): v = s.objs[p.obj].cells[o][0]; c.prove(s, zi(v.t) == t, 'components unchanged')
        written(c, st, c.out(st), [p], Text(tuple(want + [T.lit(')')])), same)
def layout(c, kinds):
    """offsets of the components, read off by constructing one"""
    st = c.state(); p = c.raw(st, None, 't'); xs = [c.op(st, k, k) for k in kinds]; st, _ = c.quiet_run(st, c.fn.replace('vf_', 'vf_new_'), [p] + [x[0] for x in xs]); offs = []
    for xp, x in xs:
        w = [o for o, (v, s) in st.objs[p.obj].cells.items() if isinstance(v, Op) and same(v.t, x)]
        if len(w) != 1: raise Unsupported('representation of a tuple')
        offs.append(w[0])
    return offs
tup('vf_pair', 'KV'); tup('vf_tuple1', 'K'); tup('vf_tuple2', 'KV'); tup('vf_tuple3', 'KVE'); tup('vf_tuple5', 'KVEPK')
# ---- writers of any sequence
def block(c, st, kind, n, name='e'):
    o = new_obj(st, 'A', 'param', name); k = 'op:' + kind if 'vf::' + kind in SIZES else kind; o.esz = SIZES.get('vf::' + kind, 8); o.n = n
    a = fresh_arr(name, *(('int', 0, (1 << 64) - 1) if kind == 'i64' else ())); o.fields[0] = Field(k, a, o.esz); return o, a
def same_block(c, o, a, n):
    def f(st): q = fresh_int('q'); c.prove(st, z3.Implies(z3.And(0 <= q, q < zi(n)), S(st.objs[o.id].fields[0].arr, q) == S(a, q)), 'elements unchanged')
    return f
def num(c, st, name='n'): n = fresh_int(name, 0, 1 << 58); st.assume(z3.And(n >= 0, n <= 1 << 58)); return n
@contract('vf_seq')
def seq_default(c):
    st = c.state(); n = num(c, st); o, a = block(c, st, 'E', n); written(c, st, c.out(st), [Ptr(o.id, 0, 0), Ptr(o.id, n, 0)], lst(op('E', a), n), same_block(c, o, a, n))
@contract('vf_seq_c')
def seq_chars(c):
    st = c.state(); n = num(c, st); o, a = block(c, st, 'E', n); x = chars(c, st, ('opening', 'closing', 'separator')); written(c, st, c.out(st), [Ptr(o.id, 0, 0), Ptr(o.id, n, 0)] + x, lst(op('E', a), n, *x), same_block(c, o, a, n))
@contract('vf_seq_vec')
def seq_vec(c):
    st = c.state(); st, p, n, a = seq(c, st, 'vf_new_vector'); x = chars(c, st, ('opening', 'closing', 'separator')); written(c, st, c.out(st), [p] + x, lst(op('E', a), n, *x), kept(c, p, n, a))
@contract('vf_seq_set')
def seq_set(c):
    st = c.state(); p, m, V = nodes(c, st, 'set'); x = chars(c, st, ('opening', 'closing', 'separator')); written(c, st, c.out(st), [p] + x, lst(key(m), CARD(m), *x), nodes_kept(c, p, m, None))
def via(w, custom, two, mapped):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); n, N = num(c, st), num(c, st, 'pool'); ix, k = block(c, st, 'i64', n, 'index'); o, a = block(c, st, 'E', N); q = z3.Int('q!i'); args = [Ptr(o.id, 0, 0)]; b = a; keep = [same_block(c, o, a, N), same_block(c, ix, k, n)]
        if two: o2, b = block(c, st, 'E', N, 'f'); args.append(Ptr(o2.id, 0, 0)); keep.append(same_block(c, o2, b, N))
        st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(S(k, q) >= 0, S(k, q) < N)), patterns=[S(k, q)]))
        names = ('opening', 'closing', 'separator') + (('descriptor',) if mapped else ()); x = chars(c, st, names) if custom else list('{},:' if mapped else '[],')
        el = lambda j: (('op', 'E', S(a, S(k, j))),) + ((T.lit(x[3]) if isinstance(x[3], str) else ('char', x[3]), ('op', 'E', S(b, S(k, j)))) if mapped else ())
        written(c, st, c.out(st), args + [Ptr(ix.id, 0, 0), Ptr(ix.id, n, 0)] + (x if custom else []), lst(el, n, *x[:3]), lambda s: [f(s) for f in keep])
via('vf_ptr', False, False, False); via('vf_ptr_c', True, False, False); via('vf_mapptr', False, True, True); via('vf_mapptr_c', True, True, True); via('vf_coef', False, True, True); via('vf_coef_c', True, True, True)
for w in ('vf_maps', 'vf_maps_c'):
    @contract(w, w[3:])
    def maps(c):
        st = c.state(); p, m, V = nodes(c, st, 'map'); x = chars(c, st, ('opening', 'closing', 'separator', 'descriptor')) if c.fn.endswith('_c') else list('{},:')
        written(c, st, c.out(st), [p] + (x if c.fn.endswith('_c') else []), lst(item(m, V, x[3]), CARD(m), *x[:3]), nodes_kept(c, p, m, V))
