"""Binary words: arbitrary pre-states and first-difference ghost facts."""
from api import *
import seqs
S = z3.Select
def word(c, st, name, n=None):
    """an arbitrary binary word at a fresh place; returns (pointer, store, size, bits)"""
    p = c.raw(st, None, name); st, _ = c.quiet_run(st, 'vf_new', [p]); sid, n, b = seqs.arb_seq(st, p, name); return st, p, sid, n, b
def two(c, same):
    st = c.state(); st, p, s, n, a = word(c, st, 'a')
    if same: return st, (p, s, n, a), (p, s, n, a)
    st, q, t, m, b = word(c, st, 'b'); return st, (p, s, n, a), (q, t, m, b)
def unchanged(c, st, w, name='operand'):
    p, s, n, a = w; k, b = seqs.view(st, p); q = fresh_int('q')
    c.prove(st, zi(k) == zi(n), f'{name}: size unchanged'); c.prove(st, z3.Implies(z3.And(0 <= q, q < zi(n)), S(b, q) == S(a, q)), f'{name}: bits unchanged')
