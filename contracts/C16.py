"""Reading delimited sequences: success, contents and consumed input against the grammar of the input characters."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from reading import *
HARNESS = ['C16.cpp']
ASSUMPTIONS = ['input streams by their contract (engine/inputs.py): reading an element skips white space, then succeeds or fails depending on the characters that follow and consumes at least one character when it succeeds', 'std::vector and std::list by their contract (engine/seqs.py)', 'the delimiters are not white space and the separator is not the closing delimiter']
def delim(st, name):
    b = fresh_int(name, 0, 255); st.assume(z3.And(b >= 0, b <= 255, z3.Not(is_ws(b)))); return b, b
def read(c, new, ty, custom, written=False):
    st = c.state(); p = c.raw(st, None, 'sequence'); st, _ = c.quiet_run(st, new, [p]); s, _, _ = seqs.arb_seq(st, p, 'old'); is_ = c.raw(st, None, 'in'); src = any_source(st); pos = fresh_int('pos', 0, 1 << 60); st.assume(z3.And(pos >= 0, pos <= src.n))
    eof, fl, bd = (fresh_bool('eof'), fresh_bool('fail'), fresh_bool('bad')) if c.case == 'failed stream' else (False, False, False)
    if c.case == 'failed stream': st.assume(z3.Or(eof, fl, bd))
    new_input(st, is_, src, pos, eof, fl, bd); args = [is_, p]; op, cl, sep = 91, 93, 44
    if custom:
        (op, a), (cl, b), (sep, d) = delim(st, 'opening'), delim(st, 'closing'), delim(st, 'separator'); st.assume(cl != sep); args += [a, b, d]
    L = Lists(st, src, ty, pos, op, cl, sep); c.ex.hints.append(L.hint(is_.obj)); good = c.case != 'failed stream'
    for o in c.run(st, args):
        if o.kind == 'ret':
            c.prove(o.st, z3.And(good, L.accept), 'succeeds only on a well-formed list'); k, b = seqs.view(o.st, p); q = fresh_int('q'); rr = c.cell(o.st, is_, streams.KEY)
            c.prove(o.st, z3.Implies(L.accept, zi(k) == L.count), 'as many elements as listed'); c.prove(o.st, z3.Implies(z3.And(L.accept, 0 <= q, q < zi(k)), S(b, q) == enc(L.elem(q), ty)), 'the elements listed, in order'); c.prove(o.st, z3.Implies(L.accept, zi(rr.pos) == L.end), 'nothing consumed after the closing delimiter')
        elif o.kind == 'throw': 
            c.check(c.ex.derives(o.val.ti, '_ZTINSt8ios_base7failureB5cxx11E'), 'an input failure', st=o.st); c.prove(o.st, z3.Not(z3.And(good, L.accept)), 'fails only on other input')
        else: c.fails(o.st, 'ends normally or with an input failure')
        c.check(seqs.alive_seq(o.st, p), 'still a sequence', st=o.st)
def enc(v, ty): return v % (1 << 32) if ty == 'int' else v
CASES = ['good stream', 'failed stream']
@contract('vf_read_v', cases=CASES)
def read_vector(c): read(c, 'vf_new_v', 'E', False)
@contract('vf_read_i', cases=CASES)
def read_ints(c): read(c, 'vf_new_i', 'int', False)
@contract('vf_read_b', cases=CASES)
def read_bits(c): read(c, 'vf_new_b', 'bool', False)
@contract('vf_seq_v', cases=CASES)
def read_sequence(c): read(c, 'vf_new_v', 'E', True)
@contract('vf_seq_i', cases=CASES)
def read_int_sequence(c): read(c, 'vf_new_i', 'int', True)
@contract('vf_seq_l', cases=CASES)
def read_into_list(c): read(c, 'vf_new_l', 'E', True)
@contract('vf_read_v', name='read_back')
def read_back(c):
    """the text of C15's contract for the sequence writer, for elements whose own text reads back: '[' e0 ',' e1 ... ']'"""
    st = c.state(); p = c.raw(st, None, 'sequence'); st, _ = c.quiet_run(st, 'vf_new_v', [p]); s, _, _ = seqs.arb_seq(st, p, 'old'); is_ = c.raw(st, None, 'in'); src = any_source(st); b = fresh_int('pos', 0, 1 << 60); new_input(st, is_, src, b)
    st.assume(z3.And(b >= 0, b < src.n, src.ch(b) == 91)); n = fresh_int('n', 0, 1 << 60); st.assume(z3.And(n >= 0, n < 1 << 60)); start = z3.Function('start', z3.IntSort(), z3.IntSort()); e = fresh_arr('e'); j = z3.Int('j!w'); s1 = start(j); en = src.end('E', s1)
    st.assume(start(0) == b + 1); st.assume(z3.Implies(n == 0, z3.And(b + 1 < src.n, src.ch(b + 1) == 93)))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(s1 > b, s1 < src.n, z3.Not(is_ws(src.ch(s1))), src.ch(s1) != 93, src.ok('E', s1), src.val('E', s1) == S(e, j), en < src.n, src.ch(en) == z3.If(j == n - 1, 93, 44), start(j + 1) == en + 1)), patterns=[start(j)]))
    L = Lists(st, src, 'E', b, 91, 93, 44); c.ex.hints.append(L.hint(is_.obj))
    c.induct(st, lambda q: L.P(q) == start(q), 0, n, 'elements are found where they were written', pat=lambda q: L.P(q)); w = z3.Int('k!lem')
    g = z3.Implies(n > 0, L.m == n - 1)
    t = st.copy(); t.assume(z3.And(n > 0, L.m < n - 1, start(L.m) >= 0)); c.fails(t, 'no element before the last ends the list', 'lemma')
    t = st.copy(); t.assume(z3.And(n > 0, L.m > n - 1, src.ok('E', L.P(n - 1)), start(n - 1) >= 0)); c.fails(t, 'the last element ends the list', 'lemma'); st.assume(g)
    for o in c.returns(c.run(st, [is_, p])):
        k, x = seqs.view(o.st, p); q = fresh_int('q'); c.prove(o.st, zi(k) == n, 'as many elements as written'); t = o.st.copy(); t.assume(z3.And(0 <= q, q < n, L.P(q) >= 0)); c.prove(t, S(x, q) == S(e, q), 'the elements written, in order')
