"""Abstract view of Array<T> used by the contracts of C03-C05, C07, C13, C15: a sequence (length, contents). The
representation is read off by executing the real constructors: every member must be the length, a constant, or a
pointer to a block that holds exactly the elements."""
from api import *
class Arr: pass
LIFE = False        # only the lifetimes of elements and storage are judged, not lengths and contents
def template(c, ctor='vf_filled', kind='E'):
    st = c.state(); p = c.raw(st, None, 'a'); n = fresh_int('n', 0, (1 << 58)); st.assume(n >= 1); xp, x = c.op(st, kind, 'x')
    st, _ = c.quiet_run(st, ctor, [p, n, xp])
    t = {}
    for off, (v, sz) in st.objs[p.obj].cells.items():
        if isinstance(v, Ptr) and v.obj is not None and st.objs[v.obj].kind == 'heap': t[off] = ('block', st.objs[v.obj].hdr, sz, st.objs[v.obj].how)
        elif isinstance(v, z3.ExprRef) and v.eq(n): t[off] = ('n', None, sz, None)
        elif isinstance(v, (int, bool)) or (isinstance(v, Ptr) and v.obj is None): t[off] = ('c', v, sz, None)
        else: raise Unsupported(f'representation of Array: member at offset {off} is neither the length, a constant nor the block')
    if sum(1 for x in t.values() if x[0] == 'block') != 1: raise Unsupported('representation of Array')
    return t
def empty_template(c, ctor='vf_default'):
    st = c.state(); p = c.raw(st, None, 'a')
    st, _ = c.quiet_run(st, ctor, [p]); return {o: v for o, v in st.objs[p.obj].cells.items()}
def make(c, st, form='block', ctor='vf_filled', dctor='vf_default', kind='E', name='a'):
    """an arbitrary array; form 'null' is a default-constructed or moved-from one"""
    a = Arr(); a.kind = kind; a.name = name; a.p = c.raw(st, None, name); a.ctor = ctor; a.dctor = dctor; a.form = form; c.arrays = getattr(c, 'arrays', []) + [a]
    if form == 'null':
        a.n = 0; a.arr = fresh_arr(name); a.block = None
        for o, v in empty_template(c, dctor).items(): st.w(a.p.obj).cells[o] = v
        return a
    t = template(c, ctor, kind); a.n = fresh_int(name + '.n', 0, (1 << 58)); st.assume(z3.And(a.n >= 0, a.n <= 1 << 58))
    b = new_obj(st, 'A', 'heap', name + '.block'); b.esz = SIZES['vf::' + kind] if 'vf::' + kind in SIZES else 8; b.n = a.n; b.bytes = mul(a.n, b.esz); a.arr = fresh_arr(name + '.c')
    b.fields[0] = Field('op:' + kind if 'vf::' + kind in SIZES else kind, a.arr, b.esz); b.live[0] = z3.K(z3.IntSort(), z3.BoolVal(True))
    l = fresh_arr('live', 'bool'); q = z3.Int('q!l'); st.assume(z3.ForAll([q], z3.Select(l, q) == z3.And(0 <= q, q < a.n), patterns=[z3.Select(l, q)])); b.live[0] = l
    for off, (k, v, sz, how) in t.items():
        st.w(a.p.obj).cells[off] = (a.n if k == 'n' else v if k == 'c' else Ptr(b.id, 0, v), sz)
        if k == 'block': b.how = how; b.hdr = v
    a.block = b.id; return a
def check(c, st, a_p, n, content, what, ctor='vf_filled', dctor='vf_default', kind='E', raw=False):
    """the object at a_p is a well-formed array of length n with content(q) at position q"""
    cells = st.objs[a_p.obj].cells
    if LIFE:
        content = None; n = next((cells[o][0] for o, x in template(c, ctor, kind).items() if x[0] == 'n' and o in cells), n)
        if not isinstance(n, (int, z3.ArithRef)): return c.check(False, f'{what}: the number of elements is set', st=st)
    if isinstance(n, int) and n == 0:
        et = empty_template(c, dctor)
        if all(o in cells and same(cells[o][0], v[0]) for o, v in et.items()): return c.check(True, f'{what}: empty array')
    t = template(c, ctor, kind); ok = True; blk = None
    for off, (k, v, sz, how) in t.items():
        cell = cells.get(off)
        if cell is None or isinstance(cell[0], Undef): return c.check(False, f'{what}: member at offset {off} is set', st=st)
        x = cell[0]
        if k == 'n': c.prove(st, zi(x) == zi(n) if isinstance(x, (int, z3.ArithRef)) else z3.BoolVal(False), f'{what}: length')
        elif k == 'c': c.check(same(x, v), f'{what}: member at offset {off}', st=st)
        else: blk = x
    if isinstance(blk, Ptr) and blk.obj is None:
        c.prove(st, zi(n) == 0, f'{what}: only an empty array has no storage'); return
    if not isinstance(blk, Ptr): return c.check(False, f'{what}: storage pointer', st=st)
    o = st.objs.get(blk.obj)
    if not c.check(o is not None and o.alive and o.kind == 'heap', f'{what}: owns live storage', st=st): return
    if o.mode == 'S':
        # storage of constant size
        if isinstance(o.size, int) and o.size == 0: c.prove(st, zi(n) == 0, f'{what}: storage is large enough'); return
        c.ex.toarray(st, o.id, SIZES['vf::' + kind] if 'vf::' + kind in SIZES else 8); o = st.objs[o.id]
    esz = SIZES['vf::' + kind] if 'vf::' + kind in SIZES else 8
    if o.esz is None: c.ex.set_esz(st, o.id, esz); o = st.objs[o.id]
    c.check(same(blk.idx, 0) or blk.idx is None and blk.off == o.hdr, f'{what}: points to the first element', st=st)
    c.prove(st, zi(n) <= zi(o.n), f'{what}: storage is large enough')
    q = fresh_int('q')
    live = o.live.get(0)
    if raw: 
        c.prove(st, z3.Implies(z3.And(0 <= q, q < zi(n)), z3.Not(z3.Select(live, q))) if live is not None else True, f'{what}: elements are raw'); return
    inn = z3.And(0 <= q, q < zi(n))
    if 0 not in o.fields: c.prove(st, zi(n) == 0, f'{what}: every element exists'); return
    if live is not None: 
        c.prove(st, z3.Implies(inn, z3.Select(live, q)), f'{what}: every element exists')
        c.prove(st, z3.Implies(z3.Select(live, q), inn), f'{what}: no other element exists')
    if content is not None: c.prove(st, z3.Implies(inn, z3.Select(o.fields[0].arr, q) == content(q)), f'{what}: contents')
    return o.id
