from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import arrays as ar
HARNESS = ['C03.cpp']
ASSUMPTIONS = ['unchecked access (operator[], front, back) is called with a position inside the array']
S = z3.Select
def pos(c, st, a, inside=None):
    i = fresh_int('i', 0, (1 << 64) - 1); st.assume(z3.And(i >= 0, i < 1 << 64))
    if inside is not None: st.assume(i < zi(a.n) if inside else i >= zi(a.n))
    return i
def unchanged(c, st, a, what): ar.check(c, st, a.p, a.n, lambda q: S(a.arr, q), what); c.noleak(st)
def reaches(c, o, a, i, what):
    """the result designates element i of the array's own storage"""
    blk = next(v for v, _ in o.st.objs[a.p.obj].cells.values() if isinstance(v, Ptr) and (v.obj == a.block or a.block is None))
    if c.check(isinstance(o.val, Ptr) and o.val.obj == a.block and o.val.off == blk.off, f'{what} designates an element of the array', st=o.st) and a.block is not None:
        c.prove(o.st, zi(o.val.idx) == zi(i), f'{what} designates the element at its position')
def at(c):
    st = c.state(); form, ins = c.case.split(','); a = ar.make(c, st, form); i = pos(c, st, a, ins == 'inside')
    if ins == 'inside':
        for o in c.returns(c.run(st, [a.p, i])): reaches(c, o, a, i, 'checked access'); unchanged(c, o.st, a, 'checked access')
    else:
        for o in c.throws(c.run(st, [a.p, i]), '_ZTISt12out_of_range', 'every other position raises out_of_range'): unchanged(c, o.st, a, 'failed access')
for w in ('vf_at', 'vf_cat'): contract(w, w[3:], ['block,inside', 'block,outside', 'null,outside'])(at)
def index(c):
    st = c.state(); a = ar.make(c, st, 'block'); i = pos(c, st, a, True)
    for o in c.returns(c.run(st, [a.p, i])): reaches(c, o, a, i, 'indexed access'); unchanged(c, o.st, a, 'indexed access')
for w in ('vf_index', 'vf_cindex'): contract(w, w[3:])(index)
def end_of(get, what, nonempty):
    def g(c):
        st = c.state(); a = ar.make(c, st, c.case or 'block')
        if nonempty: st.assume(zi(a.n) >= 1)
        for o in c.returns(c.run(st, [a.p])):
            if a.block is None: c.check(isinstance(o.val, Ptr) and o.val.obj is None, what, st=o.st)
            else: reaches(c, o, a, get(a), what)
            unchanged(c, o.st, a, what)
    return g
for w in ('vf_front', 'vf_cfront'): contract(w, w[3:])(end_of(lambda a: 0, 'first element', True))
for w in ('vf_back', 'vf_cback'): contract(w, w[3:])(end_of(lambda a: zi(a.n) - 1, 'last element', True))
for w in ('vf_begin', 'vf_cbegin'): contract(w, w[3:], ['block', 'null'])(end_of(lambda a: 0, 'begin', False))
for w in ('vf_end', 'vf_cend'): contract(w, w[3:], ['block', 'null'])(end_of(lambda a: a.n, 'end', False))
@contract('vf_empty', cases=['block', 'null'])
def empty(c):
    st = c.state(); a = ar.make(c, st, c.case)
    for o in c.returns(c.run(st, [a.p])): c.prove(o.st, zb(tobool(o.val)) == (zi(a.n) == 0), 'emptiness agrees with the size'); unchanged(c, o.st, a, 'emptiness test')
@contract('vf_size_of', cases=['block', 'null'])
def size_of(c):
    st = c.state(); a = ar.make(c, st, c.case)
    for o in c.returns(c.run(st, [a.p])): c.prove(o.st, zi(o.val) == zi(a.n), 'size'); unchanged(c, o.st, a, 'size')
