"""Arbitrary shared arrays: the block of elements an array refers to and the number of arrays that own it."""
from api import *
S = z3.Select; ES = SIZES['vf::E']
class Sh: pass
def template(c):
    st = c.state(); p = c.raw(st, None, 'a'); n = fresh_int('n', 0, 1 << 58); st.assume(z3.And(n >= 1, n <= 1 << 58))
    st, _ = c.quiet_run(st, 'vf_size', [p, n]); t = {}
    for off, (v, sz) in st.objs[p.obj].cells.items():
        if isinstance(v, Ptr) and v.obj is not None and st.objs[v.obj].kind == 'heap':
            o = st.objs[v.obj]
            if o.mode == 'S' and list(o.cells) == [v.off] and same(o.cells[v.off][0], 1): t[off] = ('count', (o.size, v.off, o.how, o.cells[v.off][1]), sz)
            else: t[off] = ('block', (o.hdr, o.how, {k: x for k, x in o.cells.items()}), sz)
        elif isinstance(v, z3.ExprRef) and v.eq(n): t[off] = ('n', None, sz)
        else: raise Unsupported(f'representation of SharedArray: member at offset {off}')
    k = sorted(x[0] for x in t.values())
    if k != ['block', 'count', 'n']: raise Unsupported('representation of SharedArray')
    return t
def shared(c, st, name='a', like=None):
    """an arbitrary shared array; like: another owner of the same elements"""
    a = Sh(); a.p = c.raw(st, None, name); a.t = template(c)
    if like is not None:
        a.n, a.arr, a.block, a.count, a.owners, a.coff, a.hdr = like.n, like.arr, like.block, like.count, like.owners, like.coff, like.hdr
        for o, cell in st.objs[like.p.obj].cells.items(): st.w(a.p.obj).cells[o] = cell
        st.assume(a.owners >= 2); return a
    a.n = fresh_int(name + '.n', 0, 1 << 58); a.owners = fresh_int(name + '.owners', 0, (1 << 64) - 1); st.assume(z3.And(a.n >= 0, a.n <= 1 << 58, a.owners >= 1, a.owners < 1 << 60))
    for off, (k, info, sz) in a.t.items():
        if k == 'n': v = a.n
        elif k == 'count':
            o = new_obj(st, 'S', 'heap', name + '.count'); o.size, co, o.how, w = info; o.cells[co] = (a.owners, w); a.count = o.id; a.coff = co; v = Ptr(o.id, None, co)
        else:
            b = new_obj(st, 'A', 'heap', name + '.block'); hdr, b.how, cells = info; b.hdr = hdr; b.esz = ES; b.n = a.n; b.bytes = add(mul(a.n, ES), hdr); a.arr = fresh_arr(name + '.c')
            if hdr: b.cells[0] = (a.n, 8)
            b.fields[0 + hdr] = Field('op:E', a.arr, ES); l = fresh_arr('live', 'bool'); q = z3.Int('q!l')
            st.assume(z3.ForAll([q], z3.Select(l, q) == z3.And(0 <= q, q < a.n), patterns=[z3.Select(l, q)])); b.live[0 + hdr] = l
            a.block = b.id; a.hdr = hdr; v = Ptr(b.id, 0, hdr)
        st.w(a.p.obj).cells[off] = (v, sz)
    return a
def refers(c, st, p, a, owners, what, content=True):
    """the array object at p refers to the elements of a, which has this many owners"""
    for off, (k, info, sz) in a.t.items():
        cell = st.objs[p.obj].cells.get(off)
        if not c.check(cell is not None, f'{what}: member at offset {off} is set', st=st): return
        v = cell[0]
        if k == 'n': c.prove(st, zi(v) == zi(a.n), f'{what}: size')
        elif k == 'block': c.check(isinstance(v, Ptr) and v.obj == a.block and same(v.idx, 0), f'{what}: shares the elements', st=st)
        else: c.check(isinstance(v, Ptr) and v.obj == a.count, f'{what}: shares the bookkeeping', st=st)
    intact(c, st, a, owners, what)
def intact(c, st, a, owners, what):
    co, b = st.objs.get(a.count), st.objs.get(a.block)
    if not c.check(co is not None and co.alive and b is not None and b.alive, f'{what}: storage is kept while an owner remains', st=st): return
    c.prove(st, zi(c.ex.norm_u(st, co.cells[a.coff][0], 64)) == owners, f'{what}: number of owners')
    q = fresh_int('q'); f = [o for o in b.fields]
    c.prove(st, S(b.live[f[0]], q) == z3.And(0 <= q, q < a.n), f'{what}: exactly the elements exist')
    c.prove(st, z3.Implies(z3.And(0 <= q, q < a.n), S(b.fields[f[0]].arr, q) == S(a.arr, q)), f'{what}: elements unchanged')
def gone(c, st, a, what):
    co, b = st.objs.get(a.count), st.objs.get(a.block)
    c.check(not (co is not None and co.alive) and not (b is not None and b.alive), f'{what}: storage and bookkeeping are released with the last owner', st=st)
