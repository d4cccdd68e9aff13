"""Assumed contracts of the standard sequences: vector, vector<bool> (bits) and list.

A sequence is an array object with a size; element references and iterators are positions in it that carry the
sequence's epoch, and every operation that may move elements starts a new epoch."""
from models import *
import models

LIM = 1 << 60           # sequences are assumed to fit in memory
def base_cls(dem):
    """(class template, its arguments, member name) of a member function"""
    s = dem; d = 0; last = 0; k = 0; n = len(s)
    # the qualified name ends at the first parameter list outside template arguments; a return type may precede it
    while k < n:
        ch = s[k]
        if s.startswith('operator', k) and d == 0:
            m = re.match(r'operator\s*(\(\)|<=>|<<|>>|<=|>=|->|<|>|[^\s\w(]+)', s[k:])
            if m: k += m.end(); continue
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0 and ch == ' ': last = k + 1
        elif d == 0 and ch == '(': break
        k += 1
    q = s[last:k]; i = q.find('<')
    return targs(q, i) if i >= 0 else []
def scls(c): return base_cls(c.dem)
# ---------------------------------------------------------------- stores
def efields(T):
    """fields of an element type: offset -> (kind, size)"""
    T = T.strip()
    if T.endswith(' const'): T = T[:-6]
    if T == 'bool': return {0: ('bit', 1)}
    if T in ('double', 'float'): return {0: ('flt', SIZES[T])}
    m = re.match(r'vf::([A-Z])$', T)
    if m: return {0: ('op:' + m.group(1), SIZES[T])}
    if T in INTT: return {0: (f'i{INTT[T][0]}', INTT[T][0] // 8)}
    if T == 'unsigned char' : return {0: ('i8', 1)}
    raise Unsupported(f'sequence of {T}')
def esize(T): return 1 if T.strip() == 'bool' else sum(s for _, s in efields(T).values())
def earr(kind, nm='A'):
    if kind == 'bit': return fresh_arr(nm, 'bool')
    if kind == 'flt': return fresh_arr(nm, 'real')
    m = re.match(r'i(\d+)$', kind)
    return fresh_arr(nm, 'int', 0, (1 << int(m.group(1))) - 1) if m else fresh_arr(nm)
def new_seq(st, T, n=0, name='seq'):
    o = new_obj(st, 'A', 'param', name); o.esz = esize(T); o.n = n; o.etype = T; o.ep = object()
    for off, (k, s) in efields(T).items(): o.fields[off] = Field(k, earr(k, name), s)
    return o
def clone_seq(st, sid):
    s = st.objs[sid]; o = new_obj(st, 'A', 'param', s.name); o.esz = s.esz; o.n = s.n; o.etype = s.etype; o.fields = dict(s.fields); o.ep = object(); return o
def seq(ex, st, p, line, kinds=('vec', 'bits', 'list')):
    ct = cont(ex, st, p, None, line)
    if ct is None: return None
    if ct.kind not in kinds: raise Unsupported(f'{ct.kind} used as {kinds}')
    return ct
def lsize(st, sid): return st.objs[sid].n
models.lsize = lsize
def arb_seq(st, p, name='a'):
    """an arbitrary content for the sequence at p; returns (store id, size term, element array)"""
    ct = st.objs[p.obj].cells[p.off][0]; o = st.w(ct.store); n = fresh_int('n_' + name, 0, LIM); st.assume(z3.And(n >= 0, n < LIM)); o.n = n; o.name = name
    for off, f in list(o.fields.items()): o.fields[off] = Field(f.kind, earr(f.kind, name), f.size)
    return ct.store, n, o.fields[0].arr
def view(st, p):
    """(size, element array) of the sequence at p"""
    ct = st.objs[p.obj].cells[p.off][0]; o = st.objs[ct.store]; return zi(o.n), o.fields[0].arr
def alive_seq(st, p):
    c = st.objs[p.obj].cells.get(p.off); return c is not None and isinstance(c[0], Cont) and st.objs[c[0].store].alive
def room(st, n): st.assume(zi(n) < 2 * LIM)
def redefine(st, oid, n, mk):
    """new content: element q of field f is mk(off, f, q)"""
    o = st.w(oid); q = z3.Int('q!d')
    for off, f in list(o.fields.items()):
        na = earr(f.kind, 'R'); t = mk(off, f, q)
        st.assume(z3.ForAll([q], z3.Select(na, q) == t, patterns=[z3.Select(na, q)])); o.fields[off] = Field(f.kind, na, f.size)
    o.n = simp(zi(n)) ; room(st, o.n)
def newep(st, oid): st.w(oid).ep = object()
# ---------------------------------------------------------------- element values
def tcell(ex, st, T, v):
    """field terms of an element value"""
    k = efields(T)[0][0]
    if k == 'bit': return {0: zb(ex.tobool(v))}
    if isinstance(v, Op): return {0: zi(v.t)}
    if isinstance(v, Flt): return {0: v.plain()}
    return {0: zi(ex.norm_u(st, v, int(k[1:])))}
def read_elem(ex, st, p, T, line):
    """value (field terms) of the T object at p"""
    (k, s), = efields(T).values()
    if k.startswith('op:'):
        t = ex.op_get(st, p, k[3:], line); return None if t is None else {0: zi(t)}
    v = ex.load(st, p, 'double' if k == 'flt' and s == 8 else 'float' if k == 'flt' else 'i8' if k == 'bit' else k, s, line)
    if v is None: return None
    if isinstance(v, Undef): ex.fail(st, 'use of an uninitialised value as an element', 'memory', line); return None
    if k == 'bit' and not isinstance(v, (bool, z3.BoolRef)): v = simp(zi(v) != 0)
    return tcell(ex, st, T, v)
def strip(t): return t.replace(' const', '').replace('&', '').strip()
def convert(T, TT, x):
    """T constructed from the TT value x"""
    T, TT = strip(T), strip(TT)
    if T == TT: return x
    (k, s), = efields(T).values(); (kk, ss), = efields(TT).values(); x = x[0]
    if k.startswith('op:'): return {0: FUN('make_' + k[3:], [TT], z3.IntSort())(x)}
    if k == 'flt' and kk[0] == 'i' and INTT[TT][1]: w = INTT[TT][0]; return {0: z3.ToReal(z3.If(x >= 1 << (w - 1), x - (1 << w), x))}
    if k == 'flt' and kk[0] == 'i': return {0: z3.ToReal(x)}
    if k == 'flt' and kk == 'flt' and s >= ss: return {0: x}
    if k[0] == 'i' and kk[0] == 'i' and s <= ss: return {0: x % (1 << (8 * s)) if s < ss else x}
    if k[0] == 'i' and kk[0] == 'i' and not INTT[TT][1]: return {0: x}
    raise Unsupported(f'conversion of {TT} to {T}')
def take(ex, st, p, T, pt, line):
    """element built from the argument at p (parameter type pt); moved-from when pt is an rvalue reference"""
    TT = strip(pt)
    x = read_elem(ex, st, p, TT, line)
    if x is None: return None
    if pt.endswith('&&'):
        m = re.match(r'vf::([A-Z])$', TT)
        if m and not ex.op_put(st, p, m.group(1), fresh_int('moved'), line, False): return None
    return convert(T, TT, x)
def default_elem(T):
    (k, s), = efields(T).values()
    if k.startswith('op:'): return {0: DEFAULT(k[3:])}
    return {0: z3.BoolVal(False) if k == 'bit' else z3.RealVal(0) if k == 'flt' else z3.IntVal(0)}
# ---------------------------------------------------------------- ranges
class Rng:
    """elements of an iterator range: count, type, and the field terms of the q-th"""
    def __init__(self, n, T, get, store=None): self.n = n; self.T = T; self.get = get; self.store = store
def otype(o):
    """type of the elements of an array object, for conversions"""
    if o.etype and ('vf::' in o.etype or o.etype in SIZES or o.etype == 'bool'): return o.etype
    f = o.fields.get(0) if o.fields else None
    if f is not None and isinstance(f.kind, str) and f.kind.startswith('op:'): return 'vf::' + f.kind[3:]
    return None
def rng_of(ex, st, f, l, line, hint=None):
    if isinstance(f, Agg): f = f.v[0]
    if isinstance(l, Agg): l = l.v[0]
    if isinstance(f, Ptr) and isinstance(l, Ptr):
        if f.obj is None and l.obj is None: return Rng(0, hint or 'vf::K', lambda q: {0: z3.IntVal(0)})
        if f.obj != l.obj: ex.fail(st, 'range of one sequence', 'memory', line); return None
        o = ex.obj(st, f, line, 'range')
        if o is None or ex.obj(st, l, line, 'range') is None: return None
        if o.mode == 'S':
            T = hint
            if T is None: raise Unsupported('range over a structure')
            ex.toarray(st, o.id, esize(T)); f = ex.fix(st, Ptr(f.obj, 0, f.off, f.ep)); l = ex.fix(st, Ptr(l.obj, 0, l.off, l.ep)); o = st.objs[f.obj]
        f, l = ex.fix(st, f), ex.fix(st, l)
        if o.esz is None:
            if ex.quick(st, zi(f.idx) == zi(l.idx)): return Rng(0, hint or 'vf::K', lambda q: {0: z3.IntVal(0)})
            raise Unsupported('range of raw storage')
        if not ex.oblige(st, And(le_t(0, f.idx), le_t(f.idx, l.idx), le_t(l.idx, o.n)), 'range within its sequence', 'memory', line): return None
        q = z3.Int('q!l')
        for off, lv in o.live.items():
            if off in o.fields and not ex.oblige(st, z3.ForAll([q], z3.Implies(z3.And(zi(f.idx) <= q, q < zi(l.idx)), z3.Select(lv, q))), 'range of live elements', 'memory', line): return None
        fields = dict(o.fields)
        if not fields:
            if not ex.oblige(st, eq_t(f.idx, l.idx), 'range of initialised elements', 'memory', line): return None
            return Rng(0, hint or 'vf::K', lambda q: {0: z3.IntVal(0)})
        T = otype(o) or hint
        if set(fields) != {f.off} or not T: raise Unsupported('range of structured elements')
        return Rng(sub(l.idx, f.idx), T, lambda q, a=fields[f.off].arr, i=f.idx: {0: z3.Select(a, simp(zi(i) + zi(q)))}, f.obj)
    if isinstance(f, LIter) and isinstance(l, LIter):
        o = st.objs.get(f.store)
        if f.store != l.store: ex.fail(st, 'range of one sequence', 'memory', line); return None
        if o is None or not o.alive: ex.fail(st, 'iterator of a destroyed container', 'memory', line); return None
        a = Ite(f.isend, o.n, f.pos); b = Ite(l.isend, o.n, l.pos); a, b = simp(zi(a)), simp(zi(b))
        if not ex.oblige(st, And(le_t(0, a), le_t(a, b), le_t(b, o.n)), 'range within its sequence', 'memory', line): return None
        return Rng(sub(b, a), o.etype, lambda q, s=o.fields[0].arr, i=a: {0: z3.Select(s, simp(zi(i) + zi(q)))}, f.store)
    if isinstance(f, Iter) and isinstance(l, Iter):
        o = st.objs.get(f.store)
        if f.store != l.store: ex.fail(st, 'range of one container', 'memory', line); return None
        if o is None or not o.alive: ex.fail(st, 'iterator of a destroyed container', 'memory', line); return None
        if o.name != 'set' and o.fields: raise Unsupported('range of key-value pairs')
        m = freeze(st, o); k = o.etype; T = 'vf::' + k[3:] if k.startswith('op:') else hint
        if T is None: raise Unsupported('range of a set of unknown type')
        def rk(i): return CARD(m) if i.isend is True else z3.If(zb(i.isend), CARD(m), zi(rank_term(ex, st, m, i.key)))
        a, b = simp(rk(f)), simp(rk(l))
        if ex.quick(st, z3.Or(zb(f.isend), zi(f.key) == NTH(m, 0))) and l.isend is True: return Rng(CARD(m), T, lambda q: {0: NTH(m, zi(q))}, f.store)
        if not ex.oblige(st, le_t(a, b), 'range within its container', 'memory', line): return None
        return Rng(sub(b, a), T, lambda q: {0: NTH(m, simp(zi(a) + zi(q)))}, f.store)
    raise Unsupported(f'range of {type(f).__name__}')
def fill_seq(st, o, r, at=0):
    """o becomes the elements of range r, converted"""
    T = o.etype
    if same(simp(zi(r.n)), 0): o = st.w(o.id); o.n = 0; return
    if isinstance(r.n, int) and r.n <= 4:
        o = st.w(o.id)
        for i in range(r.n):
            for off, t in convert(T, r.T, r.get(i)).items(): f = o.fields[off]; o.fields[off] = Field(f.kind, z3.Store(f.arr, i, t), f.size)
        o.n = r.n; return
    redefine(st, o.id, r.n, lambda off, f, q: convert(T, r.T, r.get(q))[off])
    st.assume(zi(o.n) >= 0) if isinstance(o.n, z3.ExprRef) else None
# ---------------------------------------------------------------- vector and list members
def von(*names, kinds='vl'):
    def f(g):
        for n in names:
            if 'v' in kinds: H.by['std::vector::' + n] = g
            if 'l' in kinds: H.by['std::list::' + n] = g
        return g
    return f
def ckindof(c): return 'list' if simple_name(c.dem).startswith('std::') and '::list' in simple_name(c.dem).replace('std::__cxx11', 'std') else 'bits' if scls(c)[0] == 'bool' else 'vec'
def params(c):
    d = c.dem; out = []
    for i in range(8):
        try:
            t = ptype(c, i)
            if t: out.append(t)
        except IndexError: break
    return out
def itpos(ex, st, ct, v, line):
    """position an iterator argument denotes in the sequence"""
    if isinstance(v, Agg): v = v.v[0]
    if isinstance(v, LIter):
        if v.store != ct.store: ex.fail(st, 'iterator of another container', 'memory', line); return None
        return simp(zi(Ite(v.isend, st.objs[ct.store].n, v.pos)))
    if not isinstance(v, Ptr): raise Unsupported('sequence position expected')
    if v.obj != ct.store: ex.fail(st, 'iterator of another container', 'memory', line); return None
    if ex.obj(st, v, line, 'use of an iterator') is None: return None
    return ex.fix(st, v).idx
def mkit(st, ct, i):
    o = st.objs[ct.store]
    if ct.kind == 'list': return LIter(ct.store, simp(zi(i) >= zi(o.n)), simp(zi(i)))
    p = Ptr(ct.store, simp(zi(i)), 0, o.ep)
    return Agg([p, 0]) if ct.kind == 'bits' else p
def norm_its(a):
    """bit iterators arrive as (pointer, offset) pairs"""
    return a
def split_bits(ex, st, c, a):
    """arguments with bit iterators (two machine words, offset 0) joined"""
    out = []; i = 0
    ps = params(c); k = 0; off = 1 + (1 if c.sret else 0)
    out = list(a[:off]); i = off
    for t in ps:
        if re.search(r'_Bit_(const_)?iterator$', t.strip()):
            if i + 1 < len(a) and isinstance(a[i], Ptr) and isinstance(a[i+1], int): out.append(Agg([a[i], a[i+1]])); i += 2
            else: out.append(ex.load(st, a[i], 'ptr', 8, c.line)); i += 1
        elif t.startswith('std::initializer_list') and not t.endswith('&'): out += [a[i], a[i+1]]; i += 2
        elif i < len(a): out.append(a[i]); i += 1
    return out
def toolong(ex, st, o, n, kind):
    """outcome of a request for more elements than any sequence can have; smaller requests are assumed to find memory"""
    big = simp(zi(n) > ((1 << 63) - 1) // max(o.esz, 1))
    if not feasible(st, zb(big)): return []
    s2 = st.copy(); s2.assume(zb(big), 'br'); return [thr(s2, '_ZTISt12length_error' if kind != 'list' else '_ZTISt9bad_alloc', 'cannot create sequence larger than max_size')]
@von('vector', kinds='v')
def v_ctor(ex, st, a, c): return s_ctor(ex, st, a, c, 'bits' if scls(c)[0] == 'bool' else 'vec')
@von('list', kinds='l')
def l_ctor(ex, st, a, c): return s_ctor(ex, st, a, c, 'list')
def s_ctor(ex, st, a, c, kind):
    T = scls(c)[0]; ps = [p for p in params(c) if not p.startswith('std::allocator<')]; a = split_bits(ex, st, c, a)[:]
    o = new_seq(st, T, 0, kind)
    def done(): return ret(st) if put_cont(ex, st, a[0], Cont(kind, o.id), c.line) else dead()
    if not ps: return done()
    if len(ps) == 1 and re.match(r'std::(__cxx11::)?(vector|list)<', ps[0]):
        src = seq(ex, st, a[1], c.line)
        if src is None: return dead()
        if src.kind != kind: raise Unsupported('sequence built from another kind')
        if ps[0].endswith('&&'):
            if not put_cont(ex, st, a[1], Cont(kind, o.id), c.line) or not put_cont(ex, st, a[0], src, c.line): return dead()
            return ret(st)
        o = clone_seq(st, src.store); return done()
    if ps[0].startswith('std::initializer_list'):
        l = ex.padd(st, a[1], 0, [(ex.norm_u(st, a[2], 64), 64, esize(targs(ps[0])[0]))], c.line) if isinstance(a[1], Ptr) and a[1].obj is not None else a[1]
        r = rng_of(ex, st, a[1], l, c.line, targs(ps[0])[0])
        if r is None: return dead()
        fill_seq(st, o, r); return done()
    if ps[0] in ('unsigned long',) :
        n = ex.norm_u(st, a[1], 64)
        outs = []
        outs = toolong(ex, st, o, n, kind); st.assume(zi(n) < 2 * LIM)
        if len(ps) == 2:
            x = read_elem(ex, st, a[2], T, c.line)
            if x is None: return outs
        else: x = default_elem(T)
        o = st.w(o.id)
        for off, f in list(o.fields.items()): o.fields[off] = Field(f.kind, z3.K(z3.IntSort(), x[off]), f.size)
        o.n = n; return outs + done()
    if len(ps) == 2 and len(a) >= 3:
        r = rng_of(ex, st, itval(ex, st, a[1]), itval(ex, st, a[2]), c.line, None)
        if r is None: return dead()
        st.assume(zi(r.n) < 2 * LIM); fill_seq(st, o, r); return done()
    raise Unsupported(c.dem[:140])
def itval(ex, st, v):
    """iterators of class type passed by reference to their storage"""
    return v
@von('~vector', '~list')
def s_dtor(ex, st, a, c):
    ct = seq(ex, st, a[0], c.line)
    if ct is None: return dead()
    st.w(ct.store).alive = False
    o = st.w(a[0].obj); del o.cells[a[0].off]; return ret(st)
@von('operator=')
def s_assign(ex, st, a, c):
    ps = params(c); d = seq(ex, st, a[0], c.line)
    if d is None: return dead()
    T = st.objs[d.store].etype
    if ps[0].startswith('std::initializer_list'):
        l = ex.padd(st, a[1], 0, [(ex.norm_u(st, a[2], 64), 64, esize(T))], c.line) if isinstance(a[1], Ptr) and a[1].obj is not None else a[1]
        r = rng_of(ex, st, a[1], l, c.line, T)
        if r is None: return dead()
        o = new_seq(st, T, 0); fill_seq(st, o, r); st.w(d.store).alive = False; put_cont(ex, st, a[0], Cont(d.kind, o.id), c.line); return ret(st, a[0])
    s = seq(ex, st, a[1], c.line)
    if s is None: return dead()
    if same(a[0], a[1]) and not ps[0].endswith('&&'): return ret(st, a[0])
    if ps[0].endswith('&&'):
        if same(a[0], a[1]): raise Unsupported('self-move of a sequence')
        e = new_seq(st, T, 0); st.w(d.store).alive = False
        put_cont(ex, st, a[1], Cont(d.kind, e.id), c.line); put_cont(ex, st, a[0], s, c.line)
    else:
        so = st.objs[s.store]; o = st.w(d.store); o.n = so.n; o.fields = dict(so.fields); o.ep = object()
    return ret(st, a[0])
@von('swap')
def s_swap(ex, st, a, c):
    if c.dem.count('_Bit_reference') >= 2: return br_swap(ex, st, a, c)
    d, s = seq(ex, st, a[0], c.line), seq(ex, st, a[1], c.line)
    if d is None or s is None: return dead()
    put_cont(ex, st, a[0], s, c.line); put_cont(ex, st, a[1], d, c.line); return ret(st)
def with_seq(g):
    def h(ex, st, a, c):
        ct = seq(ex, st, a[0], c.line)
        if ct is None: return dead()
        return g(ex, st, a, c, ct, st.objs[ct.store])
    return h
@von('size')
@with_seq
def s_size(ex, st, a, c, ct, o): return ret(st, o.n)
@von('empty')
@with_seq
def s_empty(ex, st, a, c, ct, o): return ret(st, simp(zi(o.n) == 0))
@von('max_size')
@with_seq
def s_max(ex, st, a, c, ct, o): return ret(st, ((1 << 63) - 1) // max(o.esz, 1))
@von('capacity')
@with_seq
def s_cap(ex, st, a, c, ct, o):
    st.ghost['reserved', ct.store] = True; v = fresh_int('cap', 0, 2 * LIM); st.assume(z3.And(v >= zi(o.n), v < 2 * LIM)); return ret(st, v)
@von('begin', 'cbegin')
@with_seq
def s_begin(ex, st, a, c, ct, o): return ret(st, mkit(st, ct, 0))
@von('end', 'cend')
@with_seq
def s_end(ex, st, a, c, ct, o):
    if ct.kind == 'list': return ret(st, LIter(ct.store, True, o.n))
    return ret(st, mkit(st, ct, o.n))
@von('data', kinds='v')
@with_seq
def s_data(ex, st, a, c, ct, o): return ret(st, Ptr(ct.store, 0, 0, o.ep))
def ref(ex, st, ct, i, c):
    """reference to element i (known to exist)"""
    o = st.objs[ct.store]; p = Ptr(ct.store, simp(zi(i)), 0, o.ep if ct.kind != 'list' else None)
    if ct.kind != 'bits': return p
    rt = c.ins.get('ty') if isinstance(c.ins, dict) else None
    return select(o.fields[0].arr, i) if rt == 'i1' else Agg([p, 1])
@von('operator[]', kinds='v')
@with_seq
def s_index(ex, st, a, c, ct, o):
    i = ex.norm_u(st, a[1], 64)
    if not ex.oblige(st, And(le_t(0, i), lt_t(i, o.n)), 'element index within the sequence', 'memory', c.line): return dead()
    return ret(st, ref(ex, st, ct, i, c))
@von('at', kinds='v')
@with_seq
def s_at(ex, st, a, c, ct, o):
    i = ex.norm_u(st, a[1], 64); g = lt_t(i, o.n); outs = []
    if g is not True and feasible(st, Not(g)): s2 = st.copy(); s2.assume(Not(g), 'br'); outs.append(thr(s2, '_ZTISt12out_of_range', 'vector::_M_range_check'))
    if g is not False and feasible(st, g): st.assume(g, 'br'); outs += ret(st, ref(ex, st, ct, i, c))
    return outs
@von('front')
@with_seq
def s_front(ex, st, a, c, ct, o):
    if not ex.oblige(st, lt_t(0, o.n), 'first element of a sequence that is not empty', 'memory', c.line): return dead()
    return ret(st, ref(ex, st, ct, 0, c))
@von('back')
@with_seq
def s_back(ex, st, a, c, ct, o):
    if not ex.oblige(st, lt_t(0, o.n), 'last element of a sequence that is not empty', 'memory', c.line): return dead()
    return ret(st, ref(ex, st, ct, sub(o.n, 1), c))
def grew(st, ct):
    if ct.kind != 'list': newep(st, ct.store)
def append1(ex, st, ct, x):
    o = st.w(ct.store); n = o.n
    for off, f in list(o.fields.items()): o.fields[off] = Field(f.kind, z3.Store(f.arr, zi(n), x[off]), f.size)
    o.n = add(n, 1); room(st, o.n); grew(st, ct)
@von('push_back')
def s_push(ex, st, a, c):
    ct = seq(ex, st, a[0], c.line)
    if ct is None: return dead()
    T = st.objs[ct.store].etype
    if ct.kind == 'bits': x = {0: zb(ex.tobool(a[1]))}
    else: x = take(ex, st, a[1], T, ptype(c, 0), c.line)
    if x is None: return dead()
    append1(ex, st, ct, x); return ret(st)
@von('emplace_back')
def s_emplace(ex, st, a, c):
    ct = seq(ex, st, a[0], c.line)
    if ct is None: return dead()
    T = st.objs[ct.store].etype
    if len(a) == 1: x = default_elem(T)
    elif len(a) == 2:
        if ct.kind == 'bits': x = read_elem(ex, st, a[1], 'bool', c.line)
        else: x = take(ex, st, a[1], T, ptype(c, 0), c.line)
    else: raise Unsupported(c.dem[:120])
    if x is None: return dead()
    append1(ex, st, ct, x); return ret(st, ref(ex, st, ct, sub(st.objs[ct.store].n, 1), c))
@von('pop_back')
@with_seq
def s_pop(ex, st, a, c, ct, o):
    if not ex.oblige(st, lt_t(0, o.n), 'removal from a sequence that is not empty', 'memory', c.line): return dead()
    o = st.w(ct.store); o.n = sub(o.n, 1); newep(st, ct.store) if ct.kind != 'list' else None; return ret(st)
@von('clear')
@with_seq
def s_clear(ex, st, a, c, ct, o): st.w(ct.store).n = 0; newep(st, ct.store); return ret(st)
@von('reserve', 'shrink_to_fit', kinds='v')
@with_seq
def s_reserve(ex, st, a, c, ct, o):
    st.ghost['reserved', ct.store] = True
    outs = []
    if len(a) > 1: n = ex.norm_u(st, a[1], 64); outs = toolong(ex, st, o, n, ct.kind); st.assume(zi(n) < 2 * LIM)
    newep(st, ct.store); return outs + ret(st)
@von('resize')
@with_seq
def s_resize(ex, st, a, c, ct, o):
    n = ex.norm_u(st, a[1], 64); old = o.n; T = o.etype
    outs = toolong(ex, st, o, n, ct.kind); st.assume(zi(n) < 2 * LIM)
    x = default_elem(T) if len(a) == 2 else {0: zb(ex.tobool(a[2]))} if ct.kind == 'bits' else read_elem(ex, st, a[2], T, c.line)
    if x is None: return outs
    redefine(st, ct.store, n, lambda off, f, q: z3.If(q < zi(old), z3.Select(f.arr, q), x[off])); newep(st, ct.store); return outs + ret(st)
@von('insert')
def s_insert(ex, st, a, c):
    a = split_bits(ex, st, c, a); ct = seq(ex, st, a[0], c.line)
    if ct is None: return dead()
    o = st.objs[ct.store]; ps = params(c); n = o.n; T = o.etype
    p = itpos(ex, st, ct, a[1], c.line)
    if p is None: return dead()
    if not ex.oblige(st, And(le_t(0, p), le_t(p, n)), 'position within the sequence', 'memory', c.line): return dead()
    if len(ps) == 2 and not ps[1].startswith('std::initializer_list'):
        x = {0: zb(ex.tobool(a[2]))} if ct.kind == 'bits' else take(ex, st, a[2], T, ps[1], c.line)
        if x is None: return dead()
        r = Rng(1, T, lambda q: x)
    elif len(ps) == 2:
        l = ex.padd(st, a[2], 0, [(ex.norm_u(st, a[3], 64), 64, esize(T))], c.line) if isinstance(a[2], Ptr) and a[2].obj is not None else a[2]
        r = rng_of(ex, st, a[2], l, c.line, T)
    elif ps[1] == 'unsigned long':
        k = ex.norm_u(st, a[2], 64); x = {0: zb(ex.tobool(a[3]))} if ct.kind == 'bits' else read_elem(ex, st, a[3], T, c.line)
        if x is None: return dead()
        r = Rng(k, T, lambda q: x)
    else:
        r = rng_of(ex, st, a[2], a[3], c.line, T)
        if r is not None and r.store == ct.store and not ex.oblige(st, False, 'elements inserted into a sequence do not come from the same sequence', 'memory', c.line): return dead()
    if r is None: return dead()
    k = r.n; n2 = add(n, k)
    if ct.kind == 'list' and not ex.quick(st, zi(p) == zi(n)): newep(st, ct.store); st.ghost['shifted', ct.store] = True
    if same(simp(zi(p)), simp(zi(n))) and isinstance(k, int) and k == 1: append1(ex, st, ct, convert(T, r.T, r.get(0))); return ret(st, mkit(st, ct, p))
    redefine(st, ct.store, n2, lambda off, f, q: z3.If(q < zi(p), z3.Select(f.arr, q), z3.If(q < zi(p) + zi(k), convert(T, r.T, r.get(simp(q - zi(p))))[off], z3.Select(f.arr, q - zi(k)))))
    grew(st, ct); return ret(st, mkit(st, ct, p))
@von('erase')
def s_erase(ex, st, a, c):
    a = split_bits(ex, st, c, a); ct = seq(ex, st, a[0], c.line)
    if ct is None: return dead()
    o = st.objs[ct.store]; n = o.n
    p = itpos(ex, st, ct, a[1], c.line)
    if p is None: return dead()
    if len(a) == 2:
        if not ex.oblige(st, And(le_t(0, p), lt_t(p, n)), 'erased position refers to an element', 'memory', c.line): return dead()
        k = 1
    else:
        l = itpos(ex, st, ct, a[2], c.line)
        if l is None: return dead()
        if not ex.oblige(st, And(le_t(0, p), le_t(p, l), le_t(l, n)), 'erased range within the sequence', 'memory', c.line): return dead()
        k = simp(zi(l) - zi(p))
    redefine(st, ct.store, sub(n, k), lambda off, f, q: z3.Select(f.arr, simp(q + zi(k))) if same(simp(zi(p)), 0) else z3.If(q < zi(p), z3.Select(f.arr, q), z3.Select(f.arr, q + zi(k))))
    if ct.kind == 'list': st.ghost['shifted', ct.store] = True
    else: newep(st, ct.store)
    return ret(st, mkit(st, ct, p))
@von('assign')
def s_assignr(ex, st, a, c):
    a = split_bits(ex, st, c, a); ct = seq(ex, st, a[0], c.line)
    if ct is None: return dead()
    o = st.objs[ct.store]; ps = params(c); T = o.etype
    if len(ps) == 2 and ps[0] == 'unsigned long':
        k = ex.norm_u(st, a[1], 64); x = {0: zb(ex.tobool(a[2]))} if ct.kind == 'bits' else read_elem(ex, st, a[2], T, c.line)
        if x is None: return dead()
        o = st.w(ct.store)
        for off, f in list(o.fields.items()): o.fields[off] = Field(f.kind, z3.K(z3.IntSort(), x[off]), f.size)
        o.n = k; newep(st, ct.store); return ret(st)
    if len(ps) == 2:
        r = rng_of(ex, st, a[1], a[2], c.line, T)
        if r is None: return dead()
        if r.store == ct.store and not ex.oblige(st, False, 'elements assigned to a sequence do not come from the same sequence', 'memory', c.line): return dead()
        fill_seq(st, st.objs[ct.store], r); newep(st, ct.store); return ret(st)
    raise Unsupported(c.dem[:120])
@von('flip', kinds='v')
@with_seq
def s_flip(ex, st, a, c, ct, o):
    redefine(st, ct.store, o.n, lambda off, f, q: z3.Not(z3.Select(f.arr, q))); return ret(st)
def seq_eq(ex, st, a, c, neg):
    x, y = seq(ex, st, a[0], c.line), seq(ex, st, a[1], c.line)
    if x is None or y is None: return dead()
    ox, oy = st.objs[x.store], st.objs[y.store]; q = z3.Int('q!q'); e = fresh_bool('seqeq'); w = fresh_int('diff'); A, B = ox.fields[0].arr, oy.fields[0].arr; n, m = zi(ox.n), zi(oy.n)
    st.assume(z3.Implies(e, z3.And(n == m, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Select(A, q) == z3.Select(B, q)), patterns=[z3.Select(A, q)]))))
    st.assume(z3.Implies(z3.Not(e), z3.Or(n != m, z3.And(0 <= w, w < n, z3.Select(A, w) != z3.Select(B, w)))))
    return ret(st, z3.Not(e) if neg else e)
EQ_MODELS['vector'] = seq_eq; EQ_MODELS['list'] = seq_eq
# ---------------------------------------------------------------- bits
def bref(ex, st, p, line):
    """(pointer into the bits) of the bit reference or iterator stored at p"""
    v = ex.load(st, p, 'ptr', 8, line)
    if v is None: return None
    if isinstance(v, Undef): ex.fail(st, 'use of an uninitialised bit reference', 'memory', line); return None
    return v
def bit_at(ex, st, v, line, what='bit accessed'):
    o = ex.obj(st, v, line, what)
    if o is None: return None
    if not ex.oblige(st, And(le_t(0, v.idx), lt_t(v.idx, o.n)), f'{what} lies within the word', 'memory', line): return None
    return o
def bit_set(ex, st, v, b, line):
    o = bit_at(ex, st, v, line, 'bit written')
    if o is None: return False
    o = st.w(v.obj); f = o.fields[0]; o.fields[0] = Field(f.kind, z3.Store(f.arr, zi(v.idx), zb(ex.tobool(b))), f.size); return True
def bit_get(ex, st, v, line):
    o = bit_at(ex, st, v, line, 'bit read')
    return None if o is None else select(o.fields[0].arr, v.idx)
@on('std::_Bit_reference::operator-conv')
def br_conv(ex, st, a, c):
    v = bref(ex, st, a[0], c.line)
    if v is None: return dead()
    b = bit_get(ex, st, v, c.line); return dead() if b is None else ret(st, b)
@on('std::_Bit_reference::operator=')
def br_assign(ex, st, a, c):
    v = bref(ex, st, a[0], c.line)
    if v is None: return dead()
    if '_Bit_reference' in ptype(c, 0):
        w = bref(ex, st, a[1], c.line)
        if w is None: return dead()
        b = bit_get(ex, st, w, c.line)
        if b is None: return dead()
    else: b = a[1]
    return ret(st, a[0]) if bit_set(ex, st, v, b, c.line) else dead()
@on('std::_Bit_reference::flip')
def br_flip(ex, st, a, c):
    v = bref(ex, st, a[0], c.line)
    if v is None: return dead()
    b = bit_get(ex, st, v, c.line)
    return dead() if b is None or not bit_set(ex, st, v, Not(b), c.line) else ret(st)
@on('std::_Bit_reference::operator==', 'std::_Bit_reference::operator<')
def br_cmp(ex, st, a, c):
    v, w = bref(ex, st, a[0], c.line), bref(ex, st, a[1], c.line)
    if v is None or w is None: return dead()
    x, y = bit_get(ex, st, v, c.line), bit_get(ex, st, w, c.line)
    if x is None or y is None: return dead()
    return ret(st, simp(zb(x) == zb(y)) if '==' in c.dem else And(Not(x), y))
def br_swap(ex, st, a, c): raise Unsupported('swap of bits')
@rx(r'^std::_Bit_reference::_Bit_reference$')
def br_ctor(ex, st, a, c):
    if len(a) == 2:
        v = ex.load(st, a[1], 'ptr', 8, c.line)
        if v is None: return dead()
        return ret(st) if ex.store(st, a[0], v, 8, c.line) and ex.store(st, Ptr(a[0].obj, a[0].idx, a[0].off + 8, a[0].ep), 1, 8, c.line) else dead()
    raise Unsupported('bit reference')
def bput(ex, st, p, v, line): return ex.store(st, p, v, 8, line) and ex.store(st, Ptr(p.obj, p.idx, p.off + 8, p.ep), 0, 4, line)
@rx(r'^std::_Bit_(const_)?iterator::_Bit_(const_)?iterator$')
def bi_ctor(ex, st, a, c):
    if len(a) == 1: v = NULL
    elif len(a) == 2:
        v = bref(ex, st, a[1], c.line)
        if v is None: return dead()
    else: raise Unsupported('bit iterator from a word pointer')
    return ret(st) if bput(ex, st, a[0], v, c.line) else dead()
@rx(r'^std::_Bit_const_iterator::_M_const_cast$')
def bi_cc(ex, st, a, c):
    v = bref(ex, st, a[0], c.line); return dead() if v is None else ret(st, Agg([v, 0]))
@rx(r'^std::_Bit_(const_)?iterator(_base)?::operator(\*|\[\])$')
def bi_deref(ex, st, a, c):
    v = bref(ex, st, a[0], c.line)
    if v is None: return dead()
    if 'operator[]' in c.dem: v = Ptr(v.obj, simp(zi(v.idx) + zi(ex.norm_s(st, a[1], 64))), 0, v.ep)
    if bit_at(ex, st, v, c.line) is None: return dead()
    rt = c.ins.get('ty') if isinstance(c.ins, dict) else None
    return ret(st, select(st.objs[v.obj].fields[0].arr, v.idx) if rt == 'i1' else Agg([v, 1]))
def bi_move(ex, st, v, d, line):
    o = ex.obj(st, v, line, 'bit iterator moved')
    if o is None: return None
    i = simp(zi(v.idx) + zi(d))
    if not ex.oblige(st, And(le_t(0, i), le_t(i, o.n)), 'bit iterator moved within the word', 'memory', line): return None
    return Ptr(v.obj, i, 0, v.ep)
@rx(r'^std::_Bit_(const_)?iterator(_base)?::operator(\+\+|--|\+=|-=|\+|-)$')
def bi_arith(ex, st, a, c):
    v = bref(ex, st, a[0], c.line)
    if v is None: return dead()
    op = re.search(r'operator(\+\+|--|\+=|-=|\+|-)$', simple_name(c.dem)).group(1); ps = params(c)
    d = 1 if op == '++' else -1 if op == '--' else ex.norm_s(st, a[1], 64)
    if op in ('-=', '-'): d = sub(0, d)
    w = bi_move(ex, st, v, d, c.line)
    if w is None: return dead()
    if op in ('+', '-'): return ret(st, Agg([w, 0]))
    if not bput(ex, st, a[0], w, c.line): return dead()
    return ret(st, Agg([v, 0]) if op in ('++', '--') and ps else a[0])
@symrx(r'_ZSt(mi|pl|eq|ne|lt|le|gt|ge|ss)(l?)RKSt\d+_Bit_(const_)?iterator')
def bi_free(ex, st, a, c):
    m = re.match(r'_ZSt(mi|pl|eq|ne|lt|le|gt|ge|ss)(l?)RKSt\d+_Bit_', c.name); op = m.group(1)
    if op in ('pl',) or op == 'mi' and c.name.endswith('l'):
        p, d = (a[1], a[0]) if m.group(2) else (a[0], a[1]); v = bref(ex, st, p, c.line)
        if v is None: return dead()
        d = ex.norm_s(st, d, 64); w = bi_move(ex, st, v, d if op == 'pl' else sub(0, d), c.line)
        return dead() if w is None else ret(st, Agg([w, 0]))
    x, y = bref(ex, st, a[0], c.line), bref(ex, st, a[1], c.line)
    if x is None or y is None: return dead()
    if x.obj != y.obj: ex.fail(st, 'comparison of iterators of one word', 'memory', c.line); return dead()
    if x.obj is not None and (ex.obj(st, x, c.line, 'bit iterator compared') is None or ex.obj(st, y, c.line, 'bit iterator compared') is None): return dead()
    i, j = (zi(x.idx), zi(y.idx)) if x.obj is not None else (z3.IntVal(0), z3.IntVal(0))
    if op == 'mi': return ret(st, simp(i - j))
    if op == 'ss': return ret(st, simp(z3.If(i < j, z3.IntVal(-1), z3.If(i == j, z3.IntVal(0), z3.IntVal(1)))))
    return ret(st, simp({'eq': i == j, 'ne': i != j, 'lt': i < j, 'le': i <= j, 'gt': i > j, 'ge': i >= j}[op]))
# ---------------------------------------------------------------- list iterators
def lcheck(ex, st, it, line):
    if isinstance(it, Undef):
        if it is HAVOC: raise Unsupported('iterator left over from an earlier iteration')
        ex.fail(st, 'use of an uninitialised iterator', 'memory', line); return None
    if not isinstance(it, LIter): raise Unsupported('list iterator expected')
    o = st.objs.get(it.store)
    if o is None or not o.alive: ex.fail(st, 'iterator of a destroyed container', 'memory', line); return None
    if ('shifted', it.store) in st.ghost: raise Unsupported('list iterator used after an insertion or removal in the middle')
    return o
def ldrf(ex, st, it, line):
    o = lcheck(ex, st, it, line)
    if o is None: return None
    if not ex.oblige(st, Not(it.isend), 'iterator dereferenced is not end()', 'memory', line): return None
    if not ex.oblige(st, And(le_t(0, it.pos), lt_t(it.pos, o.n)), 'iterator dereferenced refers to an element still in the container', 'memory', line): return None
    return Ptr(it.store, it.pos, 0)
models.ldrf = ldrf
@rx(r'^std::_List_(const_)?iterator::operator(\*|->)$')
def li_deref(ex, st, a, c):
    it = ex.load(st, a[0], 'ptr', 8, c.line)
    if it is None: return dead()
    p = ldrf(ex, st, it, c.line); return ret(st, p) if p is not None else dead()
@rx(r'^std::_List_(const_)?iterator::operator(\+\+|--)$')
def li_inc(ex, st, a, c):
    it = ex.load(st, a[0], 'ptr', 8, c.line)
    if it is None: return dead()
    o = lcheck(ex, st, it, c.line)
    if o is None: return dead()
    if 'operator++' in c.dem:
        if not ex.oblige(st, And(Not(it.isend), lt_t(it.pos, o.n)), 'iterator advanced is not end()', 'memory', c.line): return dead()
        p = add(it.pos, 1); n = LIter(it.store, simp(zi(p) >= zi(o.n)), p)
    else:
        p = sub(Ite(it.isend, o.n, it.pos), 1)
        if not ex.oblige(st, le_t(0, p), 'iterator moved back is not begin()', 'memory', c.line): return dead()
        n = LIter(it.store, False, p)
    if not ex.store(st, a[0], n, 8, c.line): return dead()
    return ret(st, it if c.dem.endswith('(int)') else a[0])
@rx(r'^std::_List_(const_)?iterator::_List_(const_)?iterator$')
def li_ctor(ex, st, a, c):
    if len(a) == 1: return ret(st) if ex.store(st, a[0], Undef('singular iterator'), 8, c.line) else dead()
    v = a[1]
    if isinstance(v, Ptr):
        v = ex.load(st, v, 'ptr', 8, c.line)
        if v is None: return dead()
    return ret(st) if ex.store(st, a[0], v, 8, c.line) else dead()
@rx(r'^std::_List_const_iterator::_M_const_cast$')
def li_cc(ex, st, a, c):
    v = ex.load(st, a[0], 'ptr', 8, c.line); return ret(st, v) if v is not None else dead()
# ---------------------------------------------------------------- anything else of these containers is outside the model
def unmodelled(ex, st, a, c): raise Unsupported(f'{c.dem[:140]} has no contract')
H.rx.append((re.compile(r'^std::(vector|list|_Vector_base|_List_|_Bit_|__cxx11::_List_)'), unmodelled))
