"""Assumed contracts of input streams.

The characters a stream can deliver are an arbitrary finite array; its state is the position of the next one and the
three state bits. Formatted input of an element type is an uninterpreted parser over positions of that array."""
from models import *
import models, streams, seqs, text as T
from streams import stream, set_stream, str_cell, SS
from seqs import params

WS_CH = (9, 10, 11, 12, 13, 32)
def is_ws(c): return z3.Or(z3.And(c >= 9, c <= 13), c == 32)
class Source:
    """characters 0..n-1 and the functions over its positions"""
    cnt = 0
    def __init__(self, arr, n):
        self.arr = arr; self.n = n; Source.cnt += 1; self.id = Source.cnt; self.I = z3.IntSort(); self.F = {}
    def fn(self, name, sort): 
        if name not in self.F: self.F[name] = z3.Function(f'{name}!{self.id}', z3.IntSort(), sort)
        return self.F[name]
    def bytes(self, st):
        q = z3.Int('q!y'); st.assume(z3.ForAll([q], z3.And(self.ch(q) >= 0, self.ch(q) <= 255), patterns=[self.ch(q)]))
    def know_ch(self, st, p): st.assume(z3.And(self.ch(p) >= 0, self.ch(p) <= 255))
    def W(self, p): return self.fn('skipws', z3.IntSort())(zi(p))
    def ch(self, p): return z3.Select(self.arr, zi(p))
    def ok(self, ty, p): return self.fn('ok ' + ty, z3.BoolSort())(zi(p))
    def end(self, ty, p): return self.fn('end ' + ty, z3.IntSort())(zi(p))
    def eofs(self, ty, p): return self.fn('eof ' + ty, z3.BoolSort())(zi(p))
    def val(self, ty, p): return self.fn('value ' + ty, z3.BoolSort() if ty == 'bool' else z3.RealSort() if ty in ('double', 'float') else z3.IntSort())(zi(p))
    def know_ws(self, st, p):
        """facts about skipping white space from p when 0 <= p <= n"""
        p = zi(p); w = self.W(p); q = z3.Int('q!w'); g = z3.And(0 <= p, p <= self.n)
        st.assume(z3.Implies(g, z3.And(p <= w, w <= self.n))); st.assume(z3.Implies(z3.And(g, w < self.n), z3.Not(is_ws(self.ch(w))))); st.assume(z3.Implies(z3.And(g, p < self.n, z3.Not(is_ws(self.ch(p)))), w == p)); st.assume(z3.Implies(g, z3.ForAll([q], z3.Implies(z3.And(p <= q, q < w), is_ws(self.ch(q))), patterns=[self.ch(q)])))
    def ws_all(self, lemma_pat=True):
        p, q = z3.Ints('p!w q!w'); w = self.W(p)
        return z3.And(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p <= self.n), z3.And(p <= w, w <= self.n, z3.Implies(w < self.n, z3.Not(is_ws(self.ch(w)))), z3.Implies(z3.And(p < self.n, z3.Not(is_ws(self.ch(p)))), w == p))), patterns=[w]))
    def el_fact(self, ty, p):
        """parsing an element at p, the first position after white space, p < n"""
        p = zi(p); e = self.end(ty, p); fs = [z3.Implies(self.ok(ty, p), p < e), p <= e, e <= self.n, z3.Implies(self.eofs(ty, p), e == self.n)]
        if ty == 'bool':
            c = self.ch(p); d = lambda x: z3.And(x >= 48, x <= 57); single = z3.And(z3.Or(c == 48, c == 49), z3.Or(p + 1 >= self.n, z3.Not(d(self.ch(p + 1)))))
            fs += [z3.Implies(single, z3.And(self.ok(ty, p), e == p + 1, self.val(ty, p) == (c == 49))), z3.Implies(z3.Not(z3.Or(d(c), c == 43, c == 45)), z3.Not(self.ok(ty, p)))]
        if ty in INTT:
            w, sg = INTT[ty]; v = self.val(ty, p); fs.append(z3.And(v >= (-(1 << (w - 1)) if sg else 0), v < 1 << (w - 1 if sg else w)))
        return z3.And(*fs)
    def el_all(self, ty):
        p = z3.Int('p!e'); return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < self.n), self.el_fact(ty, p)), patterns=[self.ok(ty, p)])
def new_input(st, p, src, pos, eof=False, failb=False, badb=False, **kw):
    streams.new_stream(st, p, **kw); r = st.objs[p.obj].cells[streams.KEY][0]
    set_stream(st, p, r.upd(inp=True, src=src, pos=pos, eof=eof, failb=failb, badb=badb))
def any_source(st, name='in'):
    n = fresh_int('len_' + name, 0, 1 << 60); st.assume(z3.And(n >= 0, n < 1 << 60)); s = Source(fresh_arr(name, 'int', 0, 255), n); s.bytes(st); return s
def chars(st, text):
    """the characters of a text as a source"""
    segs = []                                        # (length, char at offset)
    for a in T.norm(text):
        if a[0] == 'lit': s = a[1]; segs.append((len(s), lambda q, s=s: lit_char(s, q)))
        elif a[0] == 'char': segs.append((1, lambda q, v=a[1]: zi(v) % 256))
        elif a[0] == 'fold':
            def one(j, fo=a[1]):
                c = one_char(fo.piece(j))
                if c is None: raise Unsupported('input from a composed text')
                return c
            one(z3.Int('j!probe')); segs.append((sub(a[3], a[2]), lambda q, one=one, lo=a[2]: one(zi(lo) + q)))
        elif a[0] == 'var':
            k = ('chars', a[1])
            if k not in st.ghost: s = any_source(st, a[1]); st.ghost[k] = s
            s = st.ghost[k]; segs.append((s.n, lambda q, s=s: s.ch(q)))
        else: raise Unsupported('input from a text with ' + a[0])
    if len(segs) == 1 and text[0][0] == 'var': s = st.ghost[('chars', text[0][1])]; return s
    n = z3.IntVal(0); q = z3.Int('q!s'); arr = fresh_arr('chars', 'int', 0, 255); t = None; parts = []
    for ln, f in segs: parts.append((n, n + zi(ln), f)); n = simp(n + zi(ln))
    for lo, hi, f in reversed(parts): t = f(q - lo) if t is None else z3.If(q < hi, f(q - lo), t)
    if t is not None: st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Select(arr, q) == t), patterns=[z3.Select(arr, q)]))
    s = Source(arr, zi(n)); s.bytes(st); return s
def lit_char(s, q):
    t = z3.IntVal(ord(s[-1]))
    for i in range(len(s) - 2, -1, -1): t = z3.If(q == i, z3.IntVal(ord(s[i])), t)
    return t
def one_char(atoms):
    atoms = T.norm(atoms)
    if len(atoms) != 1: return None
    a = atoms[0]
    if a[0] == 'lit' and len(a[1]) == 1: return z3.IntVal(ord(a[1]))
    if a[0] == 'char': return zi(a[1]) % 256
    if a[0] == 'if':
        x, y = one_char(a[2]), one_char(a[3]); return None if x is None or y is None else z3.If(zb(a[1]), x, y)
    return None
def inp(ex, st, p, line):
    """the input state of the stream at p"""
    r = stream(ex, st, p, line)
    if r is None or 'inp' in r.f: return r
    if r.bad is not False: raise Unsupported('input from a failed stream')
    src = chars(st, r.text.a)
    r = r.upd(inp=True, src=src, pos=0, eof=False, failb=False, badb=False); set_stream(st, p, r); return r
def forks(st, *cs):
    """states for mutually exclusive, exhaustive conditions"""
    out = []
    for c in cs:
        c = simp(zb(c)) if not isinstance(c, bool) else c
        if c is False or not feasible(st, zb(c)): out.append(None); continue
        s = st.copy()
        if c is not True: s.assume(zb(c), 'br')
        out.append(s)
    return out
def notgood(r): return Or(r.eof, r.failb, r.badb)
def put_char(ex, st, p, v, line): return ex.store(st, p, v, 1, line)
@streams.on('std::operator>>')
def op_in(ex, st, a, c):
    ty = ptype(c, 1).replace('&', '').strip()
    if ty in ('char', 'signed char', 'unsigned char'): return read_char(ex, st, a, c)
    if c.name in ex.funcs: return ex.exec_fn(st, c.name, a, c.depth + 1)
    raise Unsupported('input of ' + ty[:80])
def read_char(ex, st, a, c, skip=True):
    r = inp(ex, st, a[0], c.line)
    if r is None: return dead()
    g = notgood(r); src = r.src
    if skip: src.know_ws(st, r.pos)
    w = src.W(r.pos) if skip else zi(r.pos); out = []
    s1, s2, s3 = forks(st, g, And(Not(g), w >= src.n), And(Not(g), w < src.n))
    if s1: set_stream(s1, a[0], r.upd(failb=True)); out += ret(s1, a[0])
    if s2: set_stream(s2, a[0], r.upd(failb=True, eof=True, pos=w)); out += ret(s2, a[0])
    if s3:
        set_stream(s3, a[0], r.upd(pos=simp(w + 1))); src.know_ch(s3, w)
        if put_char(ex, s3, a[1], src.ch(w), c.line): out += ret(s3, a[0])
    return out
@streams.on('std::istream::get')
def in_get(ex, st, a, c):
    if len(a) == 2 and ptype(c, 0).strip() == 'char&': return read_char(ex, st, a, c, False)
    if len(a) != 1: raise Unsupported(c.dem[:100])
    r = inp(ex, st, a[0], c.line)
    if r is None: return dead()
    g = notgood(r); src = r.src; out = []; w = zi(r.pos)
    s1, s2, s3 = forks(st, g, And(Not(g), w >= src.n), And(Not(g), w < src.n))
    if s1: set_stream(s1, a[0], r.upd(failb=True)); out += ret(s1, -1)
    if s2: set_stream(s2, a[0], r.upd(failb=True, eof=True)); out += ret(s2, -1)
    if s3: set_stream(s3, a[0], r.upd(pos=simp(w + 1))); src.know_ch(s3, w); out += ret(s3, src.ch(w))
    return out
@streams.on('std::istream::peek')
def in_peek(ex, st, a, c):
    r = inp(ex, st, a[0], c.line)
    if r is None: return dead()
    g = notgood(r); src = r.src; out = []; w = zi(r.pos)
    s1, s2, s3 = forks(st, g, And(Not(g), w >= src.n), And(Not(g), w < src.n))
    if s1: set_stream(s1, a[0], r.upd(failb=True)); out += ret(s1, -1)
    if s2: set_stream(s2, a[0], r.upd(eof=True)); out += ret(s2, -1)
    if s3: src.know_ch(s3, w); out += ret(s3, src.ch(w))
    return out
@streams.on('std::istream::putback', 'std::istream::unget')
def in_putback(ex, st, a, c):
    """clears eof; then the character last delivered is delivered again. Another character, or none delivered yet: bad"""
    r = inp(ex, st, a[0], c.line)
    if r is None: return dead()
    r = r.upd(eof=False); g = Or(r.failb, r.badb); src = r.src; p = zi(r.pos); unget = 'unget' in simple_name(c.dem); out = []
    if not unget and isinstance(a[1], Undef):
        if feasible(st, zb(Not(g))): ex.fail(st, 'an uninitialised character is put back', 'memory', c.line); return dead()
    m = And(p > 0, True if unget or isinstance(a[1], Undef) else zi(ex.norm_u(st, a[1], 8)) == src.ch(p - 1))
    s1, s2, s3 = forks(st, g, And(Not(g), m), And(Not(g), Not(m)))
    if s1: set_stream(s1, a[0], r.upd(failb=True)); out += ret(s1, a[0])
    if s2: set_stream(s2, a[0], r.upd(pos=simp(p - 1))); out += ret(s2, a[0])
    if s3:
        # whether another character may replace the last one depends on the buffer
        s4, = forks(s3, p > 0); set_stream(s3, a[0], r.upd(badb=True)); out += ret(s3, a[0])
        if s4: set_stream(s4, a[0], r.upd(pos=simp(p - 1), src=Source(z3.Store(src.arr, p - 1, zi(ex.norm_u(s4, a[1], 8))), src.n))); out += ret(s4, a[0])
    return out
def read_elem(ex, st, p, ty, put, line):
    """formatted input: put(state, value or None) stores the result (None: an arbitrary one after a failure)"""
    r = inp(ex, st, p, line)
    if r is None: return dead()
    if r.fmt != 0 or (ty == 'bool' and r.alpha is not False): raise Unsupported('input with format flags')
    g = notgood(r); src = r.src; out = []
    src.know_ws(st, r.pos); w = src.W(r.pos); st.assume(z3.Implies(z3.And(0 <= w, w < src.n), src.el_fact(ty, w)))
    ok = src.ok(ty, w); e = src.end(ty, w); ef = src.eofs(ty, w)
    s1, s2, s3, s4 = forks(st, g, And(Not(g), w >= src.n), And(Not(g), w < src.n, ok), And(Not(g), w < src.n, Not(ok)))
    if s1: set_stream(s1, p, r.upd(failb=True)); out += ret(s1, p)
    if s2: set_stream(s2, p, r.upd(failb=True, eof=True, pos=w)); out += ret(s2, p)
    if s3:
        set_stream(s3, p, r.upd(pos=e, eof=ef))
        if put(s3, src.val(ty, w)): out += ret(s3, p)
    if s4:
        set_stream(s4, p, r.upd(pos=e, eof=ef, failb=True))
        if put(s4, None): out += ret(s4, p)
    return out
@streams.on('std::istream::operator>>')
def is_member(ex, st, a, c):
    ty = ptype(c, 0).replace('&', '').strip()
    if '(*)' in ty: raise Unsupported('input manipulator')
    if ty not in INTT and ty not in ('bool', 'double', 'float'): raise Unsupported('input of ' + ty)
    def put(s, v):
        if ty == 'bool': return ex.store(s, a[1], fresh_bool('junk') if v is None else v, 1, c.line)
        if ty in ('double', 'float'): return ex.store(s, a[1], Flt(fresh_real('junk') if v is None else v), SIZES[ty], c.line)
        w = INTT[ty][0]; v = fresh_int('junk', 0, (1 << w) - 1) if v is None else zi(v) % (1 << w); return ex.store(s, a[1], v, w // 8, c.line)
    return read_elem(ex, st, a[0], ty, put, c.line)
@streams.on('vf::operator>>')
def in_opaque(ex, st, a, c):
    k = ptype(c, 1).replace('&', '').strip().split('::')[-1]
    return read_elem(ex, st, a[0], k, lambda s, v: ex.op_put(s, a[1], k, fresh_int('junk') if v is None else v, c.line, False), c.line)
def state(ex, st, a, c, r, n):
    if n == 'rdstate': return ret(st, simp(z3.If(zb(r.badb), 1, 0) + z3.If(zb(r.eof), 2, 0) + z3.If(zb(r.failb), 4, 0)))
    f = Or(r.failb, r.badb)
    if n in ('fail', 'operator!'): return ret(st, f)
    if n == 'bad': return ret(st, r.badb)
    if n == 'eof': return ret(st, r.eof)
    if n == 'good': return ret(st, Not(notgood(r)))
    return ret(st, Not(f))
def setstate(ex, st, a, c, r, n):
    v = a[1] if len(a) > 1 else 0
    if not isinstance(v, int): raise Unsupported('stream state from a computed value')
    b, e, f = bool(v & 1), bool(v & 2), bool(v & 4)
    set_stream(st, a[0], r.upd(badb=b, eof=e, failb=f) if n == 'clear' else r.upd(badb=Or(r.badb, b), eof=Or(r.eof, e), failb=Or(r.failb, f))); return ret(st)
streams.INP.update(state=state, setstate=setstate)
# ---------------------------------------------------------------- input failures
@streams.on('std::ios_base::failure::failure')
def iosf_ctor(ex, st, a, c):
    p = ptype(c, 0)
    if 'basic_string' in p:
        r = str_cell(ex, st, a[1], c.line)
        if r is None: return dead()
        t = r.text
    elif p.startswith('char const*'): t = Text(streams.lit_text(ex, st, a[1]))
    else: raise Unsupported(c.dem[:80])
    o = st.w(a[0].obj); o.cells[a[0].off] = (Rec('exc', text=t), 32); return ret(st)
@streams.on('std::ios_base::failure::~failure')
def iosf_dtor(ex, st, a, c): return ret(st)
@streams.on('std::ios_base::failure::what')
def iosf_what(ex, st, a, c): return Exec.what(ex, st, a, c)
@streams.on('std::iostream_category', 'std::make_error_code', 'std::error_code::error_code')
def iosf_code(ex, st, a, c):
    if 'error_code::error_code' in simple_name(c.dem): return ret(st)
    if 'iostream_category' in c.dem: return ret(st, Ptr(new_obj(st, 'S', 'ext', 'iostream_category').id))
    raise Unsupported(c.dem[:80])
