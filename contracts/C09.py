"""Editing of binary words: the exact bits after every operation."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from words import *
HARNESS = ['C08.cpp']
ASSUMPTIONS = ['std::vector<bool> by its contract (engine/seqs.py)', 'a word has fewer than 2^60 bits; memory suffices for its growth', 'the last bit is set only in a word that has one']
def post(c, st, w, n2, bit, name='word'):
    """w now has n2 bits, bit(q) at position q"""
    k, b = seqs.view(st, w[0]); q = fresh_int('q')
    c.prove(st, zi(k) == zi(n2), f'{name}: number of bits'); c.prove(st, z3.Implies(z3.And(0 <= q, q < zi(n2)), S(b, q) == bit(q)), f'{name}: bits')
    c.check(seqs.alive_seq(st, w[0]), f'{name}: still a word')
@contract('vf_bytes')
def bytes_(c):
    st = c.state(); st, p, s, n, a = word(c, st, 'a')
    for o in c.returns(c.run(st, [p])):
        r = c.ex.norm_u(o.st, o.val, 64)
        c.prove(o.st, z3.And(8 * zi(r) >= n, 8 * zi(r) < n + 8), 'number of bits divided by eight, rounded up'); unchanged(c, o.st, (p, s, n, a))
@contract('vf_new')
def new_(c):
    st = c.state(); p = c.raw(st, None, 'word')
    for o in c.returns(c.run(st, [p])): k, b = seqs.view(o.st, p); c.prove(o.st, zi(k) == 0, 'a default word is empty')
@contract('vf_copy')
def copy(c):
    st = c.state(); st, p, s, n, a = word(c, st, 'a'); q = c.raw(st, None, 'copy')
    for o in c.returns(c.run(st, [q, p])): post(c, o.st, (q,), n, lambda q: S(a, q), 'copy'); unchanged(c, o.st, (p, s, n, a))
@contract('vf_set_back')
def set_back(c):
    st = c.state(); st, p, s, n, a = word(c, st, 'a'); st.assume(n > 0); x = fresh_bool('x')
    for o in c.returns(c.run(st, [p, x])): post(c, o.st, (p,), n, lambda q: z3.If(q == n - 1, x, S(a, q)))
@contract('vf_erase_prefix')
def erase_prefix(c):
    st = c.state(); st, p, s, n, a = word(c, st, 'a'); k = fresh_int('k', -(1 << 31), (1 << 31) - 1); st.assume(z3.And(k >= -(1 << 31), k < 1 << 31)); gone = z3.If(k <= 0, 0, z3.If(k < n, k, n))
    for o in c.returns(c.run(st, [p, k])): post(c, o.st, (p,), n - gone, lambda q: S(a, q + gone))
@contract('vf_append_bit')
def append_bit(c):
    st = c.state(); st, p, s, n, a = word(c, st, 'a'); x = fresh_bool('x'); b = c.obj(st, 1, 'bit'); st.w(b.obj).cells[0] = (Ite(x, 1, 0), 1)
    for o in c.returns(c.run(st, [p, b])): post(c, o.st, (p,), n + 1, lambda q: z3.If(q == n, x, S(a, q)))
@contract('vf_append_word', cases=['another', 'itself'])
def append_word(c):
    st, A, B = two(c, c.case == 'itself'); (p, _, n, a), (r, _, m, b) = A, B
    for o in c.returns(c.run(st, [p, r])):
        post(c, o.st, A, n + m, lambda q: z3.If(q < n, S(a, q), S(b, q - n)))
        if c.case == 'another': unchanged(c, o.st, B)
