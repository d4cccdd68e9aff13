"""Writing and reading binary words."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from words import *
HARNESS = ['C10.cpp']
ASSUMPTIONS = []
@contract('vf_write', cases=['arbitrary stream', 'formatted stream', 'failed stream'])
def write(c):
    st = c.state(); st, p, s, n, a = word(c, st, 'a'); os_ = c.out(st); r = c.cell(st, os_, streams.KEY); alpha = fresh_bool('alpha')
    streams.set_stream(st, os_, r.upd(alpha=alpha, bad=c.case == 'failed stream', fmt='given' if c.case == 'formatted stream' else 0))
    for o in c.returns(c.run(st, [os_, p])):
        r2 = c.cell(o.st, os_, streams.KEY); bits = Text((('var', 'before'), ('if', n == 0, (T.lit('e'),), (('fold', T.Fold(lambda j: (('if', S(a, j), (T.lit('1'),), (T.lit('0'),)),)), 0, n),))))
        c.same_text(o.st, r2.text, bits if c.case != 'failed stream' else Text((('var', 'before'),)), 'its bits as zeros and ones, or e')
        c.prove(o.st, zb(r2.alpha) == alpha, 'bool format unchanged'); c.check(r2.fmt == ('given' if c.case == 'formatted stream' else 0), 'format flags unchanged'); unchanged(c, o.st, (p, s, n, a))
from reading import *
def bit(c): return z3.Or(c == 48, c == 49)
def source(c, st, text_name=None):
    src = any_source(st); pos = fresh_int('pos', 0, 1 << 60); st.assume(z3.And(pos >= 0, pos <= src.n)); return src, pos
def bits_from(st, src, w0):
    """end of the run of bit characters from w0"""
    r = fresh_int('end'); q = z3.Int('q!b'); st.assume(z3.And(w0 <= r, r <= src.n, z3.Or(r == src.n, z3.Not(bit(src.ch(r)))))); st.assume(z3.ForAll([q], z3.Implies(z3.And(w0 <= q, q < r), bit(src.ch(q))), patterns=[src.ch(q)])); return r
def run_hint(src, w0, r):
    """invariants of a loop that reads one bit per iteration; src and w0 may be found when the loop is reached"""
    src_, w0_ = src, w0
    def h(L, add):
        src, w0 = src_, w0_
        if src is None:
            for u in L.slots.values():
                if u.name.endswith('.pos') and u.loc[0] == 'cell': src = L.st0.objs[u.loc[1]].cells[u.loc[2]][0].src; w0 = src.W(0)
            if src is None: return
        q = z3.Int('q!h'); ps = [u for u in L.slots.values() if u.name.endswith('.pos')]; 
        def v(E, n, f): x = n + f; return E.v[x] if x in L.slots else None
        good = lambda E, b: z3.Not(z3.Or(*[E.v[x] for x in (b + 'eof', b + 'failb', b + 'badb') if x in L.slots]))
        for u in ps:
            b = u.name[:-3]; add(lambda E: z3.Implies(v(E, b, 'eof') if b + 'eof' in L.slots else False, v(E, b, 'failb') if b + 'failb' in L.slots else False), 'fails at the end'); add(lambda E, u=u: z3.And(zi(E.v[u.name]) >= 0, zi(E.v[u.name]) <= src.n), 'position within the input'); add(lambda E, u=u: zi(E.v[u.name]) <= r + 1, 'not beyond the first other character')
            for nn in [x.name for x in L.slots.values() if x.loc[0] == 'n']: add(lambda E, u=u, nn=nn: z3.Implies(good(E, b), zi(E.v[nn]) == zi(E.v[u.name]) - w0 - 1), 'bits read so far'); add(lambda E, u=u, nn=nn: z3.Implies(z3.Not(good(E, b)), z3.And(zi(E.v[nn]) == zi(E.v[u.name]) - w0, zi(E.v[u.name]) == src.n)), 'all bits read')
            for s in L.slots.values():
                if s.sort == 'int' and s.size == 1: add(lambda E, u=u, s=s: z3.Implies(good(E, b), zi(E.v[s.name]) == src.ch(zi(E.v[u.name]) - 1)), 'the character last read')
        ns = [u.name for u in L.slots.values() if u.loc[0] == 'n']
        for nn in ns:
            add(lambda E, nn=nn: zi(E.v[nn]) <= r - w0, 'no more than the bits')
            for s in L.slots.values():
                if s.sort == 'array' and s.loc[0] == 'arr' and s.loc[1] == int(nn[2:]): add(lambda E, s=s, nn=nn: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(E.v[nn])), S(E.v[s.name], q) == (src.ch(w0 + q) == 49)), patterns=[S(E.v[s.name], q)]), 'bits read so far')
    h.keep = True; return h
@contract('vf_read', cases=['exhausted', 'bits', 'list'])
def read(c):
    st = c.state(); st, p, s, n, a = word(c, st, 'old'); src, pos = source(c, st); is_ = c.raw(st, None, 'in'); w0 = src.W(pos); src.know_ws(st, pos); src.know_ch(st, w0)
    eof, fl, bd = (fresh_bool('eof'), fresh_bool('fail'), fresh_bool('bad')) if c.case == 'exhausted' else (False, False, False); new_input(st, is_, src, pos, eof, fl, bd)
    if c.case == 'exhausted': st.assume(z3.Or(eof, fl, bd, w0 == src.n))
    else: st.assume(w0 < src.n); st.assume((src.ch(w0) == 91) == (c.case == 'list'))
    if c.case == 'bits': r = bits_from(st, src, w0); c.ex.hints.append(run_hint(src, w0, r))
    if c.case == 'list': L = Lists(st, src, 'bool', pos, 91, 93, 44); c.ex.hints.append(L.hint(is_.obj)); st.assume(L.accept)
    for o in c.returns(c.run(st, [is_, p])):
        k, b = seqs.view(o.st, p); k = zi(k); q = fresh_int('q'); rr = c.cell(o.st, is_, streams.KEY)
        if c.case == 'exhausted': c.prove(o.st, k == 0, 'the empty word')
        elif c.case == 'bits':
            c.prove(o.st, k == r - w0, 'as many bits as read'); c.prove(o.st, z3.Implies(z3.And(0 <= q, q < k), S(b, q) == (src.ch(w0 + q) == 49)), 'the bits read'); c.prove(o.st, zi(rr.pos) == r, 'stops at the first character that is not a bit')
        else: c.prove(o.st, k == L.count, 'as many bits as listed'); c.prove(o.st, z3.Implies(z3.And(0 <= q, q < k), S(b, q) == L.elem(q)), 'the bits listed'); c.prove(o.st, zi(rr.pos) == L.end, 'nothing consumed after the list')
        c.check(seqs.alive_seq(o.st, p), 'still a word')

def string_of(c, st, name):
    """a string of arbitrary characters"""
    p = c.raw(st, 32, name); src = any_source(st, name); st.ghost[('chars', name)] = src
    streams.put_str(c.ex, st, p, (('var', name),), None); return p, src
def from_string(c, make):
    st = c.state(); q, src = string_of(c, st, 's'); w0 = src.W(0); src.know_ws(st, 0); src.know_ch(st, w0); p = c.raw(st, None, 'word')
    if not make: st, _ = c.quiet_run(st, 'vf_new', [p])
    if c.case == 'nothing': st.assume(w0 == src.n)
    else: st.assume(w0 < src.n); st.assume((src.ch(w0) == 91) == (c.case == 'list'))
    if c.case == 'bits': r = bits_from(st, src, w0); c.ex.hints.append(run_hint(src, w0, r))
    if c.case == 'list': L = Lists(st, src, 'bool', z3.IntVal(0), 91, 93, 44); c.ex.hints.append(L.hint(None)); st.assume(L.accept)
    for o in c.returns(c.run(st, [p, q] if make else [q, p])):
        k, b = seqs.view(o.st, p); k = zi(k); x = fresh_int('q')
        want = 0 if c.case == 'nothing' else r - w0 if c.case == 'bits' else L.count; c.prove(o.st, k == want, 'as many bits as the string holds')
        c.prove(o.st, z3.Implies(z3.And(0 <= x, x < k), S(b, x) == (False if c.case == 'nothing' else src.ch(w0 + x) == 49 if c.case == 'bits' else L.elem(x))), 'the bits of the string')
        rr = streams.str_cell(c.ex, o.st, q, None); c.check(rr is not None and same(rr.text, Text((('var', 's'),))), 'the string is unchanged'); c.noleak(o.st)
@contract('vf_make', cases=['nothing', 'bits', 'list'])
def make(c): from_string(c, True)
@contract('vf_ctor', cases=['nothing', 'bits', 'list'])
def ctor(c): from_string(c, True)
@contract('vf_istream', cases=['nothing', 'bits'])
def string_stream(c): from_string(c, False)
def round_(c, st, args, A, b):
    p, s, n, a = A; c.ex.hints.append(run_hint(None, None, n))
    for o in c.returns(c.run(st, args)):
        k, x = seqs.view(o.st, b); q = fresh_int('q'); c.prove(o.st, zi(k) == n, 'read back with the same size'); c.prove(o.st, z3.Implies(z3.And(0 <= q, q < n), S(x, q) == S(a, q)), 'read back with the same bits'); unchanged(c, o.st, A); c.noleak(o.st)
@contract('vf_round')
def round_trip(c):
    st = c.state(); st, *A = word(c, st, 'a'); st, *B = word(c, st, 'b'); round_(c, st, [A[0], B[0]], A, B[0])
@contract('vf_round_string')
def round_trip_string(c):
    st = c.state(); st, *A = word(c, st, 'a'); b = c.raw(st, None, 'b'); round_(c, st, [A[0], b], A, b)
