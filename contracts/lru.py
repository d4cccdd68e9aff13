"""Abstract view of LRUCache used by the contracts of C01 and C02: the finite set of labels, their values and
their recency ranks. The layout of the object is read off by executing the real constructor and put()."""
from api import *
x, y, i = z3.Ints('x!p y!p i!p')
class Cache: pass
def layout(c):
    """offsets of the capacity, the container, and the rank and value inside a node"""
    st = c.state(); p = c.raw(st, None, 'cache'); n = fresh_int('n', 0, (1 << 64) - 1)
    st.assume(n >= 1)
    st, _ = c.quiet_run(st, 'vf_construct', [p, n])
    L = Cache(); L.ncell = L.mcell = None; L.cells = {}
    for off, (v, sz) in st.objs[p.obj].cells.items():
        if isinstance(v, Cont): L.mcell = off
        elif isinstance(v, z3.ExprRef) and v.eq(n): L.ncell = off
        else: L.cells[off] = (v, sz)
    if L.ncell is None or L.mcell is None or L.cells: raise Unsupported('representation of LRUCache is not a capacity and a map of entries')
    kp, k = c.op(st, 'K', 'k'); vp, v = c.op(st, 'V', 'v')
    st, _ = c.quiet_run(st, 'vf_put', [p, kp, vp])
    s = st.objs[st.objs[p.obj].cells[L.mcell][0].store]
    L.voff = [o for o, f in s.fields.items() if f.kind == 'op:V']; L.aoff = [o for o, f in s.fields.items() if isinstance(f.kind, str) and f.kind[0] == 'i' and f.kind[1:].isdigit()]
    if len(L.voff) != 1 or len(L.aoff) != 1 or len(s.fields) != 2: raise Unsupported('representation of an LRUCache entry is not a rank and a value')
    L.voff = L.voff[0]; L.aoff = L.aoff[0]; L.akind = s.fields[L.aoff].kind; L.abits = int(L.akind[1:]); return L
def inv(m, A, n, N, who):
    """ranks are a bijection between the labels and 0..n-1, and n <= N"""
    return [z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(0 <= z3.Select(A, x), z3.Select(A, x) < n, z3.Select(who, z3.Select(A, x)) == x)), patterns=[z3.Select(A, x)]),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(m, z3.Select(who, i)), z3.Select(A, z3.Select(who, i)) == i)), patterns=[z3.Select(who, i)]),
            n <= N, N >= 1]
def arbitrary(c, st=None):
    """an arbitrary well-formed cache"""
    L = layout(c); st = st or c.state(); s = Cache(); s.L = L; s.st = st
    s.p = c.raw(st, None, 'cache'); s.N = fresh_int('N', 0, (1 << 64) - 1); st.assume(s.N >= 1)
    s.m = fresh_arr('m', 'bool'); s.A = fresh_arr('age', 'int', 0, (1 << L.abits) - 1); s.V = fresh_arr('val'); s.who = fresh_arr('who')
    o = new_nodes(st, 'map', 'op:K', s.m); s.store = o.id
    o.fields[L.aoff] = Field(L.akind, s.A, L.abits // 8); o.fields[L.voff] = Field('op:V', s.V, SIZES['vf::V'])
    enum_facts(st, s.m); s.n = CARD(s.m)
    ob = st.w(s.p.obj); ob.cells[L.ncell] = (s.N, 8); ob.cells[L.mcell] = (Cont('map', o.id), 48)
    for f in inv(s.m, s.A, s.n, s.N, s.who): st.assume(f)
    return s
def view(s, st):
    """(labels, ranks, values) after a call"""
    L = s.L; ob = st.objs[s.p.obj]; o = st.objs[ob.cells[L.mcell][0].store]
    return o.member, o.fields[L.aoff].arr, o.fields[L.voff].arr, ob.cells[L.ncell][0]
def unchanged(c, s, st, what):
    m, A, V, N = view(s, st); q = fresh_int('q')
    c.prove(st, simp(zi(N) == s.N), f'{what}: capacity unchanged')
    c.prove(st, z3.Select(m, q) == z3.Select(s.m, q), f'{what}: labels unchanged')
    c.prove(st, z3.Implies(z3.Select(s.m, q), z3.And(z3.Select(A, q) == z3.Select(s.A, q), z3.Select(V, q) == z3.Select(s.V, q))), f'{what}: ranks and values unchanged')
def wellformed(c, s, st, n, who, what):
    m, A, V, N = view(s, st); q = fresh_int('q'); card_facts(st, m)
    c.prove(st, CARD(m) == n, f'{what}: number of labels')
    c.prove(st, zi(N) == s.N, f'{what}: capacity unchanged')
    c.prove(st, n <= s.N, f'{what}: at most capacity labels')
    c.prove(st, z3.Implies(z3.Select(m, q), z3.And(0 <= z3.Select(A, q), z3.Select(A, q) < n, who(z3.Select(A, q)) == q)), f'{what}: ranks are distinct and below the size')
    c.prove(st, z3.Implies(z3.And(0 <= q, q < n), z3.And(z3.Select(m, who(q)), z3.Select(A, who(q)) == q)), f'{what}: every rank is taken')
