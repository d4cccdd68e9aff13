"""Shared arrays. The view is the block of elements an array refers to and the number of arrays that own it; the layout
is read off by executing the real constructor."""
from api import *
import models, sys, os; sys.path.insert(0, os.path.dirname(__file__))
from sharing import *
HARNESS = ['C06.cpp']
ASSUMPTIONS = ['the number of owners stays below 2^60']
def built(w, content, mkargs):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); p = c.raw(st, None, 'a'); n, args, cont = mkargs(c, st); t = template(c)
        outs = c.run(st, [p] + args)
        for o in outs:
            if o.kind == 'throw' and c.ex.derives(o.val.ti, '_ZTISt9bad_alloc'): c.prove(o.st, mul(ES, zi(n)) + 8 > (1 << 63) - 1, 'refused only when memory cannot hold the elements'); continue
            if o.kind != 'ret': c.fails(o.st, f'constructs (reached {o.kind})'); continue
            cl = o.st.objs[p.obj].cells
            for off, (k, info, sz) in t.items():
                v = cl[off][0]
                if k == 'n': c.prove(o.st, zi(v) == zi(n), 'construction: size')
                elif k == 'count': c.check(same(o.st.objs[v.obj].cells[v.off][0], 1) and o.st.objs[v.obj].how == info[2], 'construction: one owner', st=o.st)
                else:
                    b = o.st.objs[v.obj]; q = fresh_int('q'); inn = z3.And(0 <= q, q < zi(n)); f = [x for x in b.fields]
                    if not f: c.prove(o.st, zi(n) == 0, 'construction: elements'); continue
                    c.prove(o.st, S(b.live[f[0]], q) == inn, 'construction: exactly the elements exist')
                    c.prove(o.st, z3.Implies(inn, S(b.fields[f[0]].arr, q) == cont(q)), 'construction: contents')
            c.noleak(o.st)
        c.check(any(o.kind == 'ret' for o in outs), 'some execution constructs')
    return g
def szn(c, st): n = fresh_int('n', 0, (1 << 64) - 1); st.assume(z3.And(n >= 0, n < 1 << 64)); return n
def a_size(c, st): n = szn(c, st); return n, [n], lambda q: models.DEFAULT('E')
def a_fill(c, st): n = szn(c, st); xp, x = c.op(st, 'E', 'x'); return n, [n, xp], lambda q: x
def a_list(c, st):
    n = fresh_int('n', 0, 1 << 58); st.assume(z3.And(n >= 0, n <= 1 << 58)); o = new_obj(st, 'A', 'param', 'src'); o.esz = ES; o.n = n; a = fresh_arr('src'); o.fields[0] = Field('op:E', a, ES)
    l = new_obj(st, 'S', 'param', 'list'); l.size = 16; l.cells[0] = (Ptr(o.id, 0, 0), 8); l.cells[8] = (n, 8); return n, [Ptr(l.id)], lambda q: S(a, q)
built('vf_size', None, a_size); built('vf_filled', None, a_fill); built('vf_ilist', None, a_list)

@contract('vf_copy')
def copy(c):
    st = c.state(); a = shared(c, st); p = c.raw(st, None, 'copy')
    for o in c.returns(c.run(st, [p, a.p])):
        refers(c, o.st, p, a, a.owners + 1, 'copy'); refers(c, o.st, a.p, a, a.owners + 1, 'source'); c.noleak(o.st)
@contract('vf_destroy', cases=['last owner', 'not the last owner'])
def destroy(c):
    st = c.state(); a = shared(c, st); st.assume(a.owners == 1 if c.case == 'last owner' else a.owners >= 2)
    for o in c.returns(c.run(st, [a.p])):
        if c.case == 'last owner': o.st.w(a.p.obj).cells = {}; gone(c, o.st, a, 'destruction'); c.noleak(o.st)
        else: intact(c, o.st, a, a.owners - 1, 'destruction')
@contract('vf_assign', cases=['itself', 'a copy of itself', 'other, last owner', 'other, not the last owner'])
def assign(c):
    st = c.state(); a = shared(c, st, 'a')
    b = a if c.case == 'itself' else shared(c, st, 'b', a) if c.case == 'a copy of itself' else shared(c, st, 'b')
    if c.case.startswith('other'): st.assume(a.owners == 1 if 'not' not in c.case else a.owners >= 2)
    for o in c.returns(c.run(st, [a.p, b.p])):
        c.check(same(o.val, a.p), 'returns its target')
        if not c.case.startswith('other'): refers(c, o.st, a.p, a, a.owners, 'target'); refers(c, o.st, b.p, b, a.owners, 'source')
        else:
            refers(c, o.st, a.p, b, b.owners + 1, 'target'); refers(c, o.st, b.p, b, b.owners + 1, 'source')
            if 'not' in c.case: intact(c, o.st, a, a.owners - 1, 'former elements')
            else: gone(c, o.st, a, 'former elements')
        c.noleak(o.st, ignore=(a.block, a.count))
@contract('vf_size_of')
def size_of(c):
    st = c.state(); a = shared(c, st)
    for o in c.returns(c.run(st, [a.p])): c.prove(o.st, zi(o.val) == a.n, 'size'); refers(c, o.st, a.p, a, a.owners, 'size')
def reach(w, pos):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); a = shared(c, st); i = fresh_int('i', 0, (1 << 64) - 1); st.assume(z3.And(i >= 0, i < a.n)) if pos is None else None
        for o in c.returns(c.run(st, [a.p] + ([i] if pos is None else []))):
            if c.check(isinstance(o.val, Ptr) and o.val.obj == a.block and o.val.off == a.hdr, 'designates the shared elements', st=o.st): c.prove(o.st, zi(o.val.idx) == zi(i if pos is None else pos(a)), 'designates the element at its position')
            refers(c, o.st, a.p, a, a.owners, 'access')
for w in ('vf_index', 'vf_cindex'): reach(w, None)
for w in ('vf_begin', 'vf_cbegin'): reach(w, lambda a: 0)
for w in ('vf_end', 'vf_cend'): reach(w, lambda a: a.n)
