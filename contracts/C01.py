from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import lru
from lru import *
HARNESS = ['C01.cpp']
S = z3.Select

@contract('vf_construct')
def construct(c):
    st = c.state(); p = c.raw(st, None, 'cache'); n = fresh_int('n', 0, (1 << 64) - 1)
    L = layout(c)
    s0 = st.copy(); s0.assume(n == 0)
    c.throws(c.run(s0, [p, n]), what='capacity zero is rejected')
    st.assume(n >= 1)
    for o in c.returns(c.run(st, [p, n])):
        ob = o.st.objs[p.obj]; m = o.st.objs[ob.cells[L.mcell][0].store].member; q = fresh_int('q')
        c.prove(o.st, zi(ob.cells[L.ncell][0]) == n, 'capacity stored'); c.prove(o.st, z3.Not(S(m, q)), 'starts empty')

@contract('vf_get', cases=['present', 'absent'])
def get(c):
    s = arbitrary(c); st = s.st; kp, k = c.op(st, 'K', 'k')
    if c.case == 'absent':
        st.assume(z3.Not(S(s.m, k)))
        for o in c.throws(c.run(st, [s.p, kp])): unchanged(c, s, o.st, 'failed get')
        return
    st.assume(S(s.m, k)); a = S(s.A, k)
    for o in c.returns(c.run(st, [s.p, kp])):
        m, A, V, N = view(s, o.st); q = fresh_int('q')
        c.prove(o.st, S(m, q) == S(s.m, q), 'get keeps the labels')
        c.prove(o.st, z3.Implies(S(s.m, q), S(V, q) == S(s.V, q)), 'get keeps the values')
        c.prove(o.st, z3.Implies(S(s.m, q), S(A, q) == z3.If(q == k, 0, z3.If(S(s.A, q) < a, S(s.A, q) + 1, S(s.A, q)))), 'label becomes the most recent, the others keep their order')
        c.check(isinstance(o.val, Ptr) and o.val.obj == s.store and o.val.off == s.L.voff, 'get returns the stored value')
        if isinstance(o.val, Ptr) and o.val.idx is not None: c.prove(o.st, zi(o.val.idx) == k, 'get returns the value of its label')
        wellformed(c, s, o.st, s.n, lambda i: z3.If(i == 0, k, z3.If(i <= a, S(s.who, i - 1), S(s.who, i))), 'get')
        c.noleak(o.st)

@contract('vf_put', cases=['room', 'full', 'present'])
def put(c):
    s = arbitrary(c); st = s.st; kp, k = c.op(st, 'K', 'k'); vp, v = c.op(st, 'V', 'v')
    if c.case == 'present':
        st.assume(S(s.m, k))
        for o in c.throws(c.run(st, [s.p, kp, vp])): unchanged(c, s, o.st, 'rejected put')
        return
    st.assume(z3.Not(S(s.m, k)))
    st.assume(s.n < s.N if c.case == 'room' else s.n == s.N)
    last = S(s.who, s.N - 1)
    for o in c.returns(c.run(st, [s.p, kp, vp])):
        m, A, V, N = view(s, o.st); q = fresh_int('q')
        kept = S(s.m, q) if c.case == 'room' else z3.And(S(s.m, q), q != last)
        c.prove(o.st, S(m, q) == z3.Or(kept, q == k), 'put adds the label' if c.case == 'room' else 'put replaces the least recently used label')
        c.prove(o.st, S(A, k) == 0, 'new label is the most recent')
        c.prove(o.st, z3.Implies(kept, S(A, q) == S(s.A, q) + 1), 'the others keep their order')
        c.prove(o.st, z3.Implies(kept, S(V, q) == S(s.V, q)), 'put keeps the other values')
        c.prove(o.st, S(V, k) == v, 'put stores the value')
        wellformed(c, s, o.st, s.n + 1 if c.case == 'room' else s.n, lambda i: z3.If(i == 0, k, S(s.who, i - 1)), 'put')
        c.noleak(o.st)

@contract('vf_age', cases=['present', 'absent'])
def age(c):
    s = arbitrary(c); st = s.st; kp, k = c.op(st, 'K', 'k')
    if c.case == 'absent':
        st.assume(z3.Not(S(s.m, k)))
        for o in c.throws(c.run(st, [s.p, kp])): unchanged(c, s, o.st, 'failed age')
        return
    st.assume(S(s.m, k))
    for o in c.returns(c.run(st, [s.p, kp])):
        c.prove(o.st, zi(o.val) == S(s.A, k), 'age is the recency rank'); unchanged(c, s, o.st, 'age')

@contract('vf_has_label')
def has_label(c):
    s = arbitrary(c); st = s.st; kp, k = c.op(st, 'K', 'k')
    for o in c.returns(c.run(st, [s.p, kp])):
        c.prove(o.st, tobool(o.val) == S(s.m, k), 'presence of the label'); unchanged(c, s, o.st, 'has_label')

@contract('vf_current_size')
def current_size(c):
    s = arbitrary(c); st = s.st
    for o in c.returns(c.run(st, [s.p])):
        c.prove(o.st, zi(o.val) == s.n, 'number of labels'); unchanged(c, s, o.st, 'current_size')

@contract('vf_maximum_size')
def maximum_size(c):
    s = arbitrary(c); st = s.st
    for o in c.returns(c.run(st, [s.p])):
        c.prove(o.st, zi(o.val) == s.N, 'capacity'); unchanged(c, s, o.st, 'maximum_size')
