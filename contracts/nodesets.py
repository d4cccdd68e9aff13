"""Arbitrary sets and maps as pre-states, and what is left of them."""
from api import *
S = z3.Select
def nodes(c, st, kind, name='a', elem='K', val='V'):
    m = fresh_arr('m', 'bool'); o = new_nodes(st, kind, 'op:' + elem, m); enum_facts(st, m); V = fresh_arr('val')
    p = c.raw(st, None, name); st.w(p.obj).cells[0] = (Cont(kind, o.id), 48)
    if kind == 'map': o.fields[SIZES['vf::' + elem]] = Field('op:' + val, V, SIZES['vf::' + val])
    return p, m, V
def store(c, st, p, what='the container exists'):
    cell = st.objs[p.obj].cells.get(0) if p.obj is not None and p.obj in st.objs else None
    if not c.check(cell is not None and isinstance(cell[0], Cont) and st.objs[cell[0].store].alive, what): return None
    return st.objs[cell[0].store]
def members(c, st, p, what='the container exists'):
    o = store(c, st, p, what); return None if o is None else o.member
def kept(c, st, p, m, V=None, what=''):
    o = store(c, st, p)
    if o is None: return
    q = fresh_int('q'); c.prove(st, S(o.member, q) == S(m, q), f'{what}keys unchanged')
    if V is not None and o.fields: c.prove(st, z3.Implies(S(m, q), S(list(o.fields.values())[0].arr, q) == S(V, q)), f'{what}values unchanged')
def occurrences(st, n, a, name='first'):
    """occurs(q, k): q is among the first k elements of the sequence"""
    f1 = z3.Function(fresh_int(name).decl().name(), z3.IntSort(), z3.IntSort()); i = z3.Int('i!g'); e = S(a, i)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.And(0 <= f1(e), f1(e) <= i, S(a, f1(e)) == e)), patterns=[e]))
    return (lambda q, k: z3.And(0 <= f1(q), f1(q) < zi(k), S(a, f1(q)) == q)), f1
