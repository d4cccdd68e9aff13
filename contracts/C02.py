from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from lru import *
HARNESS = ['C01.cpp']
S = z3.Select

@contract('vf_construct')
def construct_zero(c):
    st = c.state(); p = c.raw(st, None, 'cache'); n = fresh_int('n', 0, (1 << 64) - 1); st.assume(n == 0)
    c.throws(c.run(st, [p, n]), what='capacity zero is rejected')

@contract('vf_get', cases=['present', 'absent'])
def get(c):
    s = arbitrary(c); st = s.st; kp, k = c.op(st, 'K', 'k')
    if c.case == 'absent':
        st.assume(z3.Not(S(s.m, k)))
        for o in c.throws(c.run(st, [s.p, kp])): unchanged(c, s, o.st, 'failed get')
        return
    st.assume(S(s.m, k))
    for o in c.returns(c.run(st, [s.p, kp])):
        m, A, V, N = view(s, o.st); q = fresh_int('q')
        c.prove(o.st, S(m, q) == S(s.m, q), 'get keeps the labels')
        c.prove(o.st, z3.Implies(S(s.m, q), S(V, q) == S(s.V, q)), 'get keeps every value')
        c.check(isinstance(o.val, Ptr) and o.val.obj == s.store and o.val.off == s.L.voff and o.val.idx is not None, 'get returns a stored value')
        if isinstance(o.val, Ptr) and o.val.idx is not None:
            c.prove(o.st, zi(o.val.idx) == k, 'get returns the entry of its label'); c.prove(o.st, S(V, zi(o.val.idx)) == S(s.V, k), 'get returns the value stored with the label')

@contract('vf_age', cases=['absent'])
def age(c):
    s = arbitrary(c); st = s.st; kp, k = c.op(st, 'K', 'k'); st.assume(z3.Not(S(s.m, k)))
    for o in c.throws(c.run(st, [s.p, kp])): unchanged(c, s, o.st, 'failed age')

@contract('vf_put', cases=['room', 'full', 'room,own value', 'full,own value', 'present'])
def put(c):
    s = arbitrary(c); st = s.st; kp, k = c.op(st, 'K', 'k')
    if 'own' in c.case:
        k0 = fresh_int('k0'); st.assume(S(s.m, k0)); v = S(s.V, k0); vp = Ptr(s.store, k0, s.L.voff)
    else: vp, v = c.op(st, 'V', 'v')
    if c.case == 'present':
        st.assume(S(s.m, k))
        for o in c.throws(c.run(st, [s.p, kp, vp])): unchanged(c, s, o.st, 'rejected put')
        return
    room = c.case.startswith('room')
    st.assume(z3.Not(S(s.m, k))); st.assume(s.n < s.N if room else s.n == s.N)
    for o in c.returns(c.run(st, [s.p, kp, vp])):
        m, A, V, N = view(s, o.st); q = fresh_int('q')
        c.prove(o.st, S(m, k), 'put adds the label'); c.prove(o.st, S(V, k) == v, 'put stores the value given')
        c.prove(o.st, z3.Implies(z3.And(S(m, q), q != k), z3.And(S(s.m, q), S(V, q) == S(s.V, q))), 'put alters no other value')
        card_facts(o.st, m); c.prove(o.st, CARD(m) == (s.n + 1 if room else s.N), 'number of entries'); c.prove(o.st, CARD(m) <= s.N, 'at most capacity entries')
        c.prove(o.st, zi(N) == s.N, 'capacity unchanged'); c.noleak(o.st)
