"""Comparison of binary words. Each specification names the first position where the words differ (or the end of the shorter one)."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from words import *
HARNESS = ['C08.cpp']
ASSUMPTIONS = ['std::vector<bool> by its contract (engine/seqs.py)', 'a word has fewer than 2^60 bits']
def first_diff(st, n, a, m, b):
    d = fresh_int('d'); q = z3.Int('q!p'); lo = z3.If(n < m, n, m)
    st.assume(z3.And(0 <= d, d <= lo)); st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < d), S(a, q) == S(b, q)), patterns=[S(a, q)]))
    st.assume(z3.Or(d == lo, S(a, d) != S(b, d))); return d
@contract('vf_less', cases=['two words', 'a word and itself'])
def less(c):
    st, A, B = two(c, c.case != 'two words'); (_, _, n, a), (_, _, m, b) = A, B; d = first_diff(st, n, a, m, b)
    for o in c.returns(c.run(st, [A[0], B[0]])):
        c.prove(o.st, zb(tobool(o.val)) == z3.If(z3.And(d < n, d < m), z3.Not(S(a, d)), n < m), 'lexicographic order, a proper prefix first')
        unchanged(c, o.st, A); unchanged(c, o.st, B)
@contract('vf_prefix', cases=['two words', 'a word and itself'])
def prefix(c):
    st, A, B = two(c, c.case != 'two words'); (_, _, n, a), (_, _, m, b) = A, B; d = first_diff(st, n, a, m, b)
    for o in c.returns(c.run(st, [A[0], B[0]])):
        c.prove(o.st, zb(tobool(o.val)) == (d == n), 'a prefix exactly when its bits are the leading bits of the other word')
        unchanged(c, o.st, A); unchanged(c, o.st, B)
@contract('vf_subword', cases=['two words', 'a word and itself'])
def subword(c):
    st, A, B = two(c, c.case != 'two words'); (_, _, n, a), (_, _, m, b) = A, B; q, s = z3.Ints('q!p s!p')
    D = z3.Function('mismatch', z3.IntSort(), z3.IntSort())         # first position where a differs from b shifted by s, or the end of a
    st.assume(z3.ForAll([s], z3.Implies(z3.And(0 <= s, s <= m - n), z3.And(0 <= D(s), D(s) <= n, z3.Or(D(s) == n, S(a, D(s)) != S(b, s + D(s))))), patterns=[D(s)]))
    st.assume(z3.ForAll([s, q], z3.Implies(z3.And(0 <= s, s <= m - n, 0 <= q, q < D(s)), S(a, q) == S(b, s + q)), patterns=[z3.MultiPattern(D(s), S(a, q))]))
    def hint(L, add):
        for u in L.slots.values():
            if u.sort == 'int' and u.size == 8: add(lambda E, u=u: z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < zi(E.v[u.name])), D(s) < n), patterns=[D(s)]), 'no occurrence starts earlier')
            if u.sort == 'int' and u.size == 8: add(lambda E, u=u: z3.Implies(z3.And(0 <= zi(E.v[u.name]), zi(E.v[u.name]) <= m - n), D(zi(E.v[u.name])) <= n), 'a mismatch lies within the word')
    hint.keep = True; c.ex.hints.append(hint)
    for o in c.returns(c.run(st, [A[0], B[0]])):
        r = zb(tobool(o.val)); w = z3.Int('w!s'); x = fresh_int('x')
        # if it answers no, no position is an occurrence; if it answers yes, some position is
        t = o.st.copy(); t.assume(z3.Not(r)); t.assume(z3.And(0 <= x, x <= m - n, D(x) == n)); c.fails(t, 'answers no only when the bits occur nowhere')
        t = o.st.copy(); t.assume(r); t.assume(z3.ForAll([s], z3.Implies(z3.And(0 <= s, s <= m - n), D(s) < n), patterns=[D(s)])); c.fails(t, 'answers yes only when the bits occur consecutively somewhere')
        t = o.st.copy(); t.assume(n == 0); c.prove(t, r, 'the empty word is a subword of every word')
        unchanged(c, o.st, A); unchanged(c, o.st, B)
