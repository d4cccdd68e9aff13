"""Assumed contracts of the functions the code calls and does not define: the C++ runtime, the standard
containers, streams, strings, smart pointers, and the opaque element types of the harnesses."""
from core import *
from exec import *
import text as T

def canon(s):
    s = s.replace('__cxx11::', '')
    for x in ('ostream', 'istream', 'ios'):
        s = s.replace(f'std::basic_{x}::', f'std::{x}::')
    return s
class Handlers:
    def __init__(self): self.by = {}; self.sym = {}; self.rx = []; self.cache = {}; self.cache_n = 0
    def find(self, name, d):
        if name in self.cache: return self.cache[name]
        h = self._find(name, d); self.cache[name] = h; return h
    def _find(self, name, d):
        if name in self.sym: return self.sym[name]
        for r, h in self.symrx:
            if r.match(name): return h
        dem = d['dem']
        if name.startswith('vf_') : return None
        s = canon(simple_name(dem))
        h = self.by.get(s)
        if h is not None: return h
        for r, h in self.rx:
            if r.match(s): return h
        return None
    symrx = []
H = Handlers()
def on(*names):
    def f(g):
        for n in names: H.by[n] = g
        return g
    return f
def sym(*names):
    def f(g):
        for n in names: H.sym[n] = g
        return g
    return f
def rx(r):
    def f(g): H.rx.append((re.compile(r), g)); return g
    return f
def symrx(r):
    def f(g): H.symrx.append((re.compile(r), g)); return g
    return f
def ret(st, v=None): return [Outcome('ret', st, v)]
def dead(): return []
def thr(st, ti, what='', obj=True):
    o = new_obj(st, 'S', 'exc', ti); o.cells[0] = (Rec('exc', text=Text((T.lit(what),)) if isinstance(what, str) else what), 16)
    return Outcome('throw', st, Exc(ti, Ptr(o.id)))

# ---------------------------------------------------------------- C++ runtime
OOM = False            # contracts may let every allocation be refused
@sym('_Znwm', '_Znam')
def op_new(ex, st, a, c):
    how = 'new' if c.name == '_Znwm' else 'new[]'
    n = ex.norm_u(st, a[0], 64); lim = (1 << 63) - 1
    g = le_t(n, lim); outs = []
    if OOM and not ex.quiet or g is not True and feasible(st, Not(g)):
        s2 = st.copy()
        if not OOM: s2.assume(Not(g), 'br')
        outs.append(thr(s2, '_ZTISt9bad_alloc', 'bad_alloc'))
    if g is False: return outs
    if g is not True:
        if not feasible(st, g): return outs
        st.assume(g, 'br')
    # an overflow check of new[] leaves a conditional size
    while not isinstance(n, int) and n.decl().kind() == z3.Z3_OP_ITE:
        if not feasible(st, n.arg(0)): n = simp(n.arg(2))
        elif not feasible(st, z3.Not(n.arg(0))): n = simp(n.arg(1))
        else: break
    # a size computed modulo 2^64 that is known not to have wrapped
    if not isinstance(n, int):
        for nm in sorted(consts_of(n)):
            if nm in WRAPS and ex.quick(st, z3.Int(nm) == WRAPS[nm]): n = simp(z3.substitute(n, (z3.Int(nm), WRAPS[nm])))
    outs.append(Outcome('ret', st, ex.alloc(st, n, how, c.line))); return outs
@sym('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
def op_delete(ex, st, a, c):
    return ret(st) if ex.free(st, a[0], 'new[]' if c.name.startswith('_Zda') else 'new', c.line) else dead()
@sym('malloc')
def c_malloc(ex, st, a, c): return ret(st, ex.alloc(st, ex.norm_u(st, a[0], 64), 'malloc', c.line))
@sym('free')
def c_free(ex, st, a, c): return ret(st) if ex.free(st, a[0], 'malloc', c.line) else dead()
@sym('abort', '_ZSt9terminatev', '__assert_fail', 'exit', '__cxa_pure_virtual')
def c_abort(ex, st, a, c): return [Outcome('abort', st, c.name)]
@symrx(r'__clang_call_terminate|_ZSt21__glibcxx_assert_fail')
def c_term(ex, st, a, c): return [Outcome('abort', st, c.name)]
@sym('__cxa_allocate_exception')
def cxa_alloc(ex, st, a, c):
    o = new_obj(st, 'S', 'exc'); o.size = a[0] if isinstance(a[0], int) else None; return ret(st, Ptr(o.id))
@sym('__cxa_free_exception')
def cxa_free(ex, st, a, c): return ret(st)
@sym('__cxa_throw')
def cxa_throw(ex, st, a, c):
    o = st.objs[a[1].obj]; return [Outcome('throw', st, Exc(o.name, a[0]))]
@sym('__cxa_begin_catch', '__cxa_get_exception_ptr')
def cxa_begin(ex, st, a, c):
    e = a[0]
    if not isinstance(e, Exc): raise Unsupported('catch of unknown exception')
    if c.name == '__cxa_begin_catch': st.caught = st.caught + (e,)
    return ret(st, e.ptr)
@sym('__cxa_end_catch')
def cxa_end(ex, st, a, c): st.caught = st.caught[:-1]; return ret(st)
@sym('__cxa_rethrow')
def cxa_rethrow(ex, st, a, c): return [Outcome('throw', st, st.caught[-1])] if st.caught else [Outcome('abort', st, 'rethrow')]
@sym('_ZSt16__throw_bad_castv')
def t_badcast(ex, st, a, c): return [thr(st, '_ZTISt8bad_cast', 'bad_cast')]
@sym('_ZSt17__throw_bad_allocv')
def t_badalloc(ex, st, a, c): return [thr(st, '_ZTISt9bad_alloc', 'bad_alloc')]
@sym('_ZSt28__throw_bad_array_new_lengthv', '__cxa_throw_bad_array_new_length')
def t_badarr(ex, st, a, c): return [thr(st, '_ZTISt20bad_array_new_length', 'bad_array_new_length')]
@sym('_ZSt20__throw_length_errorPKc')
def t_len(ex, st, a, c): return [thr(st, '_ZTISt12length_error', ex.cstr(st, a[0]) or '')]
@sym('_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz')
def t_oor(ex, st, a, c): return [thr(st, '_ZTISt12out_of_range', ex.cstr(st, a[0]) or '')]
@sym('_ZSt25__throw_bad_function_callv')
def t_bfc(ex, st, a, c): return [thr(st, '_ZTISt17bad_function_call', '')]
@symrx(r'llvm\.(dbg|lifetime|experimental\.noalias|stacksave|stackrestore|donothing|assume|invariant)')
def ll_nop(ex, st, a, c): return ret(st)
@symrx(r'llvm\.mem(cpy|move)|memcpy$|memmove$')
def ll_memcpy(ex, st, a, c):
    n = a[2]
    if isinstance(n, int):
        if n == 0: return ret(st, a[0])
        if isinstance(a[0], Undef) or isinstance(a[1], Undef): ex.fail(st, 'copy through uninitialised pointer', 'memory', c.line); return dead()
        so = st.objs.get(a[1].obj); do = st.objs.get(a[0].obj)
        if so is not None and do is not None and so.mode != 'S' and do.mode != 'S' and so.esz and n > so.esz:
            return ret(st, a[0]) if ex.bulkcopy(st, a[0], a[1], n, c.line) else dead()
        if so is not None and so.kind == 'global' and isinstance(so.bytes, list) and do is not None and do.mode == 'A':
            for i in range(n):
                if not ex.store(st, Ptr(a[0].obj, add(a[0].idx, i), a[0].off), so.bytes[a[1].off + i], 1, c.line): return dead()
            return ret(st, a[0])
        if so is not None and so.mode == 'S' and do is not None and do.mode != 'S' and so.cells and do.esz and n > do.esz:
            ex.toarray(st, so.id, do.esz); return ret(st, a[0]) if ex.bulkcopy(st, a[0], ex.fix(st, Ptr(so.id, 0, a[1].off)), n, c.line) else dead()
        return ret(st, a[0]) if ex.copyobj(st, a[0], a[1], n, c.line) else dead()
    n = ex.norm_u(st, n, 64)
    return ret(st, a[0]) if ex.bulkcopy(st, a[0], a[1], n, c.line) else dead()
@symrx(r'llvm\.memset|memset$')
def ll_memset(ex, st, a, c):
    p, v, n = a[0], a[1], a[2]
    o = ex.obj(st, p, c.line, 'write')
    if o is None: return dead()
    if not isinstance(n, int): 
        if o.mode == 'A' and isinstance(v, int) and v == 0 and o.esz in (1, 2, 4, 8):
            k = divexact(n, o.esz)
            if k is not None and same(p.idx, 0) and same(k, o.n):
                o = st.w(p.obj); o.fields[0] = Field(f'i{8*o.esz}', z3.K(z3.IntSort(), z3.IntVal(0)), o.esz)
                if o.kind != 'param': o.live[0] = z3.K(z3.IntSort(), z3.BoolVal(True))
                return ret(st, p)
        raise Unsupported('variable-size memset')
    if isinstance(v, int) and o.mode == 'S':
        o = st.w(p.obj); ex_clear = ex.clear(o, p.off, n)
        if v == 0: o.cells[p.off] = (('fill', 0), n)
        elif n <= 16:
            for i in range(n): o.cells[p.off + i] = (v, 1)
        else: raise Unsupported('memset with nonzero value')
        return ret(st, p)
    if isinstance(v, int) and v == 0 and o.mode == 'A' and o.esz in (1, 2, 4, 8) and n % o.esz == 0 and n <= 4096:
        for i in range(n // o.esz):
            if not ex.store(st, Ptr(p.obj, add(p.idx, i), 0, p.ep), 0, o.esz, c.line): return dead()
        return ret(st, p)
    raise Unsupported('memset')
@symrx(r'llvm\.eh\.typeid\.for')
def ll_typeid(ex, st, a, c): return ret(st, ex.selid(st.objs[a[0].obj].name))
@symrx(r'llvm\.umul\.with\.overflow\.i64')
def ll_umul(ex, st, a, c):
    x, y = ex.norm_u(st, a[0], 64), ex.norm_u(st, a[1], 64); p = mul(x, y)
    return ret(st, Agg([p, Not(lt_t(p, 1 << 64))]))
@symrx(r'llvm\.uadd\.with\.overflow\.i64')
def ll_uadd(ex, st, a, c):
    x, y = ex.norm_u(st, a[0], 64), ex.norm_u(st, a[1], 64); p = add(x, y)
    return ret(st, Agg([p, Not(lt_t(p, 1 << 64))]))
@symrx(r'llvm\.(umax|umin|smax|smin)\.i(\d+)')
def ll_minmax(ex, st, a, c):
    m = re.match(r'llvm\.(u|s)(max|min)\.i(\d+)', c.name); w = int(m.group(3)); nf = ex.norm_u if m.group(1) == 'u' else ex.norm_s
    x, y = nf(st, a[0], w), nf(st, a[1], w); l = lt_t(x, y)
    return ret(st, Ite(l, y, x) if m.group(2) == 'max' else Ite(l, x, y))
@symrx(r'llvm\.abs\.i(\d+)')
def ll_abs(ex, st, a, c):
    w = int(c.name.rsplit('.i', 1)[1]); x = ex.norm_s(st, a[0], w); return ret(st, Ite(lt_t(x, 0), sub(0, x), x))
@symrx(r'llvm\.fabs\.')
def ll_fabs(ex, st, a, c): t = a[0].t; return ret(st, Flt(z3.If(t < 0, -t, t), a[0].nan))
@sym('abs', 'labs', 'llabs')
def c_abs(ex, st, a, c):
    w = 32 if c.name == 'abs' else 64
    x = ex.norm_s(st, a[0], w)
    if not ex.oblige(st, Not(eq_t(x, -(1 << (w-1)))), 'no overflow in abs', 'overflow', c.line): return dead()
    return ret(st, Ite(lt_t(x, 0), sub(0, x), x))
@sym('fabs', '_ZSt4fabsf', 'fabsf')
def c_fabs(ex, st, a, c): t = a[0].t; return ret(st, Flt(z3.If(t < 0, -t, t), a[0].nan))
@sym('__cxa_guard_acquire')
def guard(ex, st, a, c): raise Unsupported('function-local static initialisation')
@sym('__cxa_atexit')
def atexit(ex, st, a, c): return ret(st, 0)

# ---------------------------------------------------------------- run-time type information (Itanium C++ ABI)
def rtti_bases(ex, ti):
    """direct bases of the class with this type information: (type, offset or position of the offset in the vtable, virtual, public)"""
    g = ex.globs.get(ti, {}); i = g.get('init')
    if i is None:
        if ti.startswith('_ZTISt'): return []
        raise Unsupported('type information of ' + ti)
    els = i[2]; kind = els[0][1]
    if 'si_class_type_info' in kind: return [(els[2][1], 0, False, True)]
    if 'vmi_class_type_info' in kind:
        r = []
        bs = [x for e in els[4:] for x in (e[2] if e[0] == 'ca' else [e])]
        for k in range(0, len(bs), 2):
            f = int(bs[k + 1][2] if bs[k + 1][0] != "ce" else bs[k + 1][2][2]); f = f if f < 1 << 63 else f - (1 << 64); r.append((bs[k][1], f >> 8, bool(f & 1), bool(f & 2)))
        return r
    return []
def subobjects(ex, st, ti, whole, off, public, line, acc):
    acc.append((ti, off, public))
    for b, d, virt, pub in rtti_bases(ex, ti):
        if virt:
            vp = ex.load(st, Ptr(whole.obj, whole.idx, whole.off + off), 'ptr', 8, line)
            d = ex.load(st, Ptr(vp.obj, vp.idx, vp.off + d), 'i64', 8, line); d = d if d < 1 << 63 else d - (1 << 64)
        if (b, off + d, public and pub) not in acc: subobjects(ex, st, b, whole, off + d, public and pub, line, acc)
    return acc
def dyn_type(ex, st, p, line):
    """(type information, offset of p in the complete object)"""
    vp = ex.load(st, p, 'ptr', 8, line)
    if not isinstance(vp, Ptr) or vp.obj is None or not st.objs[vp.obj].name.startswith('_ZTV'): raise Unsupported('dynamic type of an object without virtual functions')
    ti = ex.load(st, Ptr(vp.obj, vp.idx, vp.off - 8), 'ptr', 8, line); top = ex.load(st, Ptr(vp.obj, vp.idx, vp.off - 16), 'i64', 8, line)
    top = 0 if isinstance(top, Ptr) else top; top = top if top < 1 << 63 else top - (1 << 64)
    return st.objs[ti.obj].name, -top
@sym('__dynamic_cast')
def dyn_cast(ex, st, a, c):
    p = a[0]
    if not isinstance(p, Ptr) or p.obj is None: return ret(st, NULL)
    if ex.obj(st, p, c.line, 'dynamic cast') is None: return dead()
    src, dst = st.objs[a[1].obj].name, st.objs[a[2].obj].name; ti, off = dyn_type(ex, st, p, c.line); whole = Ptr(p.obj, p.idx, p.off - off)
    subs = subobjects(ex, st, ti, whole, 0, True, c.line, [])
    cand = sorted({(o, pub) for t, o, pub in subs if t == dst})
    down = [o for o, pub in cand if any(t == src and q == off and pp for t, q, pp in subobjects(ex, st, dst, whole, o, True, c.line, []))]
    if len(set(down)) == 1: return ret(st, Ptr(whole.obj, whole.idx, whole.off + down[0]))
    if not down and any(t == src and o == off and pub for t, o, pub in subs):
        pubs = {o for o, pub in cand if pub}
        if len(pubs) == 1 and len({o for o, _ in cand}) == 1: return ret(st, Ptr(whole.obj, whole.idx, whole.off + pubs.pop()))
    return ret(st, NULL)
@sym('__cxa_bad_cast')
def cxa_bad_cast(ex, st, a, c): return [thr(st, '_ZTISt8bad_cast', 'bad_cast')]
@sym('__cxa_bad_typeid')
def cxa_bad_typeid(ex, st, a, c): return [thr(st, '_ZTISt10bad_typeid', 'bad_typeid')]
@sym('_ZNSt8bad_castD1Ev', '_ZNSt8bad_castD2Ev', '_ZNSt8bad_castD0Ev')
def bad_cast_dtor(ex, st, a, c): return ret(st)

# ---------------------------------------------------------------- opaque element types
MOVED = [0]
@rx(r'^vf::([A-Z])::([A-Z]|~[A-Z]|operator=)$')
def opaque_special(ex, st, a, c):
    m = re.match(r'vf::([A-Z])::(.*)$', c.dem); k = m.group(1); rest = m.group(2)
    if rest.startswith('~'): return ret(st) if ex.op_kill(st, a[0], k, c.line) else dead()
    ass = rest.startswith('operator=')
    args = rest[rest.index('('):]
    tys = argtypes(args); own = f'vf::{k}'
    if not tys: t = DEFAULT(k)
    elif len(tys) == 1 and tys[0] in (own + ' const&', own + '&&'):
        t = ex.op_get(st, a[1], k, c.line)
        if t is None: return dead()
        if tys[0].endswith('&&'):
            # moved from: valid but unspecified (nothing changes on self-move)
            if not (isinstance(a[0], Ptr) and same(a[0], a[1])):
                if not ex.op_put(st, a[1], k, fresh_int('moved'), c.line, False): return dead()
    else: # conversion, possibly with an extra parameter
        ts = opaque_args(ex, st, a[1:], tys, c.line)
        if ts is None: return dead()
        t = FUN('make_' + k, tys, z3.IntSort())(*ts)
    if not ex.op_put(st, a[0], k, t, c.line, not ass): return dead()
    return ret(st, a[0] if ass else None)
_defs = {}
def DEFAULT(k):
    if k not in _defs: _defs[k] = z3.Int(f'default_{k}')
    return _defs[k]
def argtypes(args):
    """parameter types of a demangled parameter list"""
    i = args.rindex(')'); r = targs('<' + args[1:i] + '>') if args[1:i] else []
    return [x.strip() for x in r]
def opk(t):
    m = re.match(r'vf::([A-Z])( const)?(&&?)?$', t.strip()); return m.group(1) if m else None
def FUN(name, tys, res):
    so = [z3.RealSort() if t in ('double', 'float') else z3.BoolSort() if t == 'bool' else z3.IntSort() for t in tys]
    return z3.Function(name + '(' + ','.join(t.replace(' const&', '').replace('&&', '').replace('&', '') for t in tys) + ')', *so, res)
def opaque_args(ex, st, a, tys, line):
    ts = []
    for p, t in zip(a, tys):
        k = opk(t)
        if k is not None: x = ex.op_get(st, p, k, line)
        elif t in ('double', 'float'): x = p.plain() if isinstance(p, Flt) else None
        elif t == 'bool': x = zb(ex.tobool(p))
        elif t in INTT: x = zi((ex.norm_s if INTT[t][1] else ex.norm_u)(st, p, INTT[t][0]))
        else: raise Unsupported(f'opaque function with parameter {t}')
        if x is None: return None
        ts.append(zi(x) if isinstance(x, int) else x)
    return ts
INTT = {'unsigned long': (64, 0), 'long': (64, 1), 'unsigned int': (32, 0), 'int': (32, 1), 'unsigned short': (16, 0), 'short': (16, 1), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0)}
@rx(r'^vf::([A-Z])::operator\(\)$')
def opaque_call(ex, st, a, c):
    m = re.match(r'vf::([A-Z])::operator\(\)(\(.*)$', c.dem); k = m.group(1); tys = argtypes(m.group(2)); a = list(a)
    out = a.pop(0) if c.sret else None
    ts = opaque_args(ex, st, a, [f'vf::{k} const&'] + tys, c.line)
    if ts is None: return dead()
    return opaque_value(ex, st, 'call', [f'vf::{k}'] + tys, ts, out, c)
@rx(r'^vf::[a-z]\w*$')
def opaque_fun(ex, st, a, c):
    m = re.search(r'vf::([a-z]\w*)(\(.*)$', c.dem); tys = argtypes(m.group(2)); a = list(a)
    out = a.pop(0) if c.sret else None
    ts = opaque_args(ex, st, a, tys, c.line)
    if ts is None: return dead()
    return opaque_value(ex, st, m.group(1), tys, ts, out, c)
SRETSZ = {8: 'K', 16: 'V', 24: 'E', 32: 'R'}
def opaque_value(ex, st, name, tys, ts, out, c):
    if out is not None:
        sz = c.decl['params'][0]['sty'].get('size'); k = SRETSZ[sz]
        t = FUN(name, tys, z3.IntSort())(*ts)
        return ret(st, None) if ex.op_put(st, out, k, t, c.line, True) else dead()
    rt = c.ins.get('ty') if isinstance(c.ins, dict) else None
    if rt == 'i1': return ret(st, FUN(name, tys, z3.BoolSort())(*ts))
    if rt in ('i8', 'i32', 'i64'):
        t = FUN(name, tys, z3.IntSort())(*ts); w = int(rt[1:]); st.assume(z3.And(t >= -(1 << (w-1)), t < (1 << (w-1)))); return ret(st, t)
    if rt == 'double': return ret(st, Flt(FUN(name, tys, z3.RealSort())(*ts)))
    raise Unsupported('opaque function result')
@rx(r'^vf::operator(<|>|<=|>=|==|!=)$')
def opaque_cmp(ex, st, a, c):
    m = re.match(r'vf::operator\s*(<=|>=|==|!=|<|>)\(vf::([A-Z])', c.dem); op, k = m.groups()
    x = ex.op_get(st, a[0], k, c.line)
    if x is None: return dead()
    y = ex.op_get(st, a[1], k, c.line)
    if y is None: return dead()
    x, y = zi(x), zi(y)
    return ret(st, simp({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]))

# ---------------------------------------------------------------- ordered containers
def cont(ex, st, p, kind, line):
    """container object at p"""
    o = ex.obj(st, p, line, 'container access')
    if o is None: return None
    if o.mode != 'S': raise Unsupported('container inside an array element')
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[0], Cont):
        if c is not None and isinstance(c[0], Undef): raise Unsupported('container left over from an earlier iteration')
        ex.fail(st, 'use of a container that was not constructed', 'memory', line); return None
    return c[0]
CSIZE = {'set': 48, 'map': 48, 'vec': 24, 'bits': 40, 'list': 24}
def put_cont(ex, st, p, ct, line):
    o = ex.obj(st, p, line, 'container construction')
    if o is None: return False
    if o.mode != 'S': raise Unsupported('container inside an array element')
    o = st.w(p.obj); ex.clear(o, p.off, CSIZE[ct.kind]); o.cells[p.off] = (ct, CSIZE[ct.kind]); return True
def kkind(t):
    t = t.replace(' const', '').strip()
    m = re.match(r'vf::([A-Z])$', t)
    if m: return 'op:' + m.group(1)
    return {'unsigned long': 'i64', 'long': 'i64', 'int': 'i32', 'unsigned int': 'i32', 'bool': 'i8', 'char': 'i8'}.get(t)
def new_nodes(st, kind, keykind, member=None, name=''):
    o = new_obj(st, 'N', 'heap', name or kind); o.member = member if member is not None else z3.K(z3.IntSort(), z3.BoolVal(False)); o.etype = keykind
    return o
def cdem_class(dem):
    """first template-id of the class the member function belongs to"""
    return targs(dem)
def clsargs(dem):
    """template arguments of the class a member function belongs to"""
    from seqs import base_cls
    return base_cls(dem) or targs(dem)
def keykind(c):
    k = kkind(clsargs(c.dem)[0])
    if k is None: raise Unsupported(f'container of {clsargs(c.dem)[0]}')
    return k
def key_at(ex, st, p, kk, line):
    if kk.startswith('op:'): return ex.op_get(st, p, kk[3:], line)
    w = int(kk[1:]); v = ex.load(st, p, kk, w // 8, line)
    if v is None: return None
    return ex.norm_u(st, v, w)
WIT = z3.Function('some_member', MS, z3.IntSort())
def card_facts(st, m):
    if m.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        st.assume(CARD(m) == 0); return
    x = z3.Int('x!c')
    st.assume(CARD(m) >= 0); st.assume(CARD(m) < (1 << 60))
    st.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), CARD(m) >= 1), patterns=[z3.Select(m, x)]))
    st.assume(z3.Implies(CARD(m) >= 1, z3.Select(m, WIT(m))))
def named(st, m):
    """a constant equal to a membership array (keeps quantifier patterns simple)"""
    if m.decl().kind() == z3.Z3_OP_UNINTERPRETED and m.num_args() == 0: return m
    k = ('named', m.get_id())
    if k in st.memo: return st.memo[k][0]
    c = fresh_arr('mem', 'bool'); x = z3.Int('x!n')
    st.assume(c == m); st.assume(CARD(c) == CARD(m))
    st.memo[k] = (c, m); return c
def enum_facts(st, m):
    card_facts(st, m)
    x, y, i, j = z3.Ints('x!e y!e i!e j!e'); n = CARD(m)
    st.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(0 <= RANK(m, x), RANK(m, x) < n, NTH(m, RANK(m, x)) == x)), patterns=[z3.Select(m, x)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(m, NTH(m, i)), RANK(m, NTH(m, i)) == i)), patterns=[NTH(m, i)]))
    st.assume(z3.ForAll([x, y], z3.Implies(z3.And(z3.Select(m, x), z3.Select(m, y)), (x < y) == (RANK(m, x) < RANK(m, y))), patterns=[z3.MultiPattern(RANK(m, x), RANK(m, y))]))
def freeze(st, o):
    """name the membership array of a node store and add its enumeration facts"""
    m = named(st, o.member)
    if m is not o.member: o = st.w(o.id); o.member = m
    enum_facts(st, m); return m
def insert_key(ex, st, o, k):
    """member' and cardinality fact; returns condition 'was already there'"""
    m = o.member; was = select(m, k)
    o = st.w(o.id); o.member = z3.Store(m, zi(k), z3.BoolVal(True))
    card_facts(st, m); st.assume(CARD(o.member) == CARD(m) + z3.If(zb(was), 0, 1))
    return was
def erase_key(ex, st, o, k):
    m = o.member; was = select(m, k)
    o = st.w(o.id); o.member = z3.Store(m, zi(k), z3.BoolVal(False))
    card_facts(st, m); st.assume(CARD(o.member) == CARD(m) - z3.If(zb(was), 1, 0))
    return was
def store_of(st, ct): return st.objs[ct.store]
def itdrf(ex, st, it, line):
    if isinstance(it, Undef):
        if it is HAVOC: raise Unsupported('iterator left over from an earlier iteration')
        ex.fail(st, 'use of an uninitialised iterator', 'memory', line); return None
    if isinstance(it, LIter): return ldrf(ex, st, it, line)
    if not isinstance(it, Iter): raise Unsupported('iterator expected')
    if it.isend is None: ex.fail(st, 'dereference of a singular iterator', 'memory', line); return None
    if not ex.oblige(st, Not(it.isend), 'iterator dereferenced is not end()', 'memory', line): return None
    o = st.objs.get(it.store)
    if o is None or not o.alive: ex.fail(st, 'iterator of a destroyed container', 'memory', line); return None
    if not ex.oblige(st, select(o.member, it.key), 'iterator dereferenced refers to an element still in the container', 'memory', line): return None
    return Ptr(it.store, it.key, 0)
C_ = r'^std::(__cxx11::)?(map|set)::'
def oc(*names):
    def f(g):
        for n in names:
            H.by['std::map::' + n] = g; H.by['std::set::' + n] = g
        return g
    return f
def ckind(c): return 'map' if 'std::map<' in c.dem.split('(')[0] or re.search(r'std::map<', c.dem) and simple_name(c.dem).startswith('std::map') else 'set'
def top_paren(d):
    """start of the parameter list of a demangled name"""
    n = 0
    for i, ch in enumerate(d):
        if ch in '<': n += 1
        elif ch == '>': n -= 1
        elif ch == '(' and n == 0: return i
    return len(d)
@oc('map', 'set')
def oc_ctor(ex, st, a, c):
    kind = simple_name(c.dem).split('::')[-1]; kk = keykind(c)
    d = c.dem; params = d[top_paren(d):] or '()'
    if params == '()' or re.match(r'\(std::less<.*> const&, std::allocator<', params) and len(a) == 3 or (len(a) == 2 and params.startswith('(std::allocator')):
        o = new_nodes(st, kind, kk); return ret(st) if put_cont(ex, st, a[0], Cont(kind, o.id), c.line) else dead()
    if len(a) == 2 and re.match(r'\(std::(map|set)<', params):
        src = cont(ex, st, a[1], kind, c.line)
        if src is None: return dead()
        if params.endswith('&&)'):
            o = new_nodes(st, kind, kk)
            if not put_cont(ex, st, a[1], Cont(kind, o.id), c.line) or not put_cont(ex, st, a[0], src, c.line): return dead()
            return ret(st)
        o = clone_nodes(st, src.store); return ret(st) if put_cont(ex, st, a[0], Cont(kind, o.id), c.line) else dead()
    if len(a) >= 3:
        o = new_nodes(st, kind, kk)
        if not put_cont(ex, st, a[0], Cont(kind, o.id), c.line): return dead()
        # initializer_list (pointer, length) or a range of iterators
        f, l = a[1], a[2]
        if params.startswith('(std::initializer_list'): l = ex.padd(st, f, 0, [(ex.norm_u(st, a[2], 64), 64, sizeof(targs(params)[0]) or 8)], c.line)
        return ret(st) if insert_range(ex, st, o.id, f, l, c.line, mapval(c, kind)) else dead()
    raise Unsupported(f'constructor {c.dem[:150]}')
def clone_nodes(st, sid):
    s = st.objs[sid]; o = new_nodes(st, s.name, s.etype, s.member, s.name); o.fields = dict(s.fields); return o
def mapval(c, kind):
    return kkind(clsargs(c.dem)[1]) if kind == 'map' else None
def elem_conv(src, dst):
    """conversion of an element of one kind into another"""
    if not (isinstance(src, str) and isinstance(dst, str) and src.startswith('op:') and dst.startswith('op:')): raise Unsupported(f'conversion of elements from {src} to {dst}')
    return FUN('make_' + dst[3:], ['vf::' + src[3:]], z3.IntSort())
def insert_range(ex, st, oid, f, l, line, vt=None):
    """insert every element of [f,l) (first insertion of a key wins)"""
    if isinstance(f, Iter) and isinstance(l, Iter):
        so = st.objs.get(f.store)
        if f.store != l.store or so is None: ex.fail(st, 'range of one container', 'memory', line); return False
        if not same(l.isend, True) and not ex.quick(st, zb(l.isend)): raise Unsupported('partial container range')
        x = z3.Int('x!r'); o = st.objs[oid]
        enum = freeze(st, so)
        if so.etype != o.etype:
            cv = elem_conv(so.etype, o.etype)
            if not ex.quick(st, z3.Or(zb(f.isend), zi(f.key if f.key is not None else 0) == NTH(enum, 0))) or o.name == 'map' or so.name == 'map': raise Unsupported('conversion of part of a container')
            m = fresh_arr('image', 'bool'); old = o.member; wit = fresh_arr('from'); y = z3.Select(wit, x)
            st.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Or(z3.Select(old, x), z3.And(z3.Select(enum, y), cv(y) == x))), patterns=[z3.Select(m, x)]))
            if old.num_args() == 0: st.assume(z3.ForAll([x], z3.Implies(z3.Select(old, x), z3.Select(m, x)), patterns=[z3.Select(old, x)]))
            elif old.decl().kind() != z3.Z3_OP_CONST_ARRAY: raise Unsupported('insertion of converted elements')
            st.assume(z3.ForAll([x], z3.Implies(z3.Select(enum, x), z3.Select(m, cv(x))), patterns=[z3.Select(enum, x)]))
            card_facts(st, m); card_facts(st, old); st.assume(z3.And(CARD(m) >= CARD(old), CARD(m) <= CARD(old) + CARD(enum)))
            o = st.w(oid); o.member = m; return True
        inr = z3.And(z3.Select(enum, x), z3.Not(zb(f.isend)), x >= zi(f.key if f.key is not None else 0)) if not same(f.isend, True) else z3.BoolVal(False)
        full = ex.quick(st, z3.Or(zb(f.isend), zi(f.key if f.key is not None else 0) == NTH(enum, 0)))
        if full: inr = z3.Select(enum, x)
        sf = {}
        for off, fd in so.fields.items():
            # values of the other map converted to the value type of this one
            if vt is not None and fd.kind != vt:
                cv = elem_conv(fd.kind, vt); na = fresh_arr('conv'); st.assume(z3.ForAll([x], z3.Select(na, x) == cv(z3.Select(fd.arr, x)), patterns=[z3.Select(na, x)])); fd = Field(vt, na, sizeof('vf::' + vt[3:]))
            sf[off] = fd
        if o.member.decl().kind() == z3.Z3_OP_CONST_ARRAY and full:
            o = st.w(oid); o.member = enum; o.fields = sf; return True
        m = fresh_arr('union', 'bool'); old = o.member
        st.assume(z3.ForAll([x], z3.Select(m, x) == z3.Or(z3.Select(old, x), inr), patterns=[z3.Select(m, x)]))
        card_facts(st, m); o = st.w(oid); o.member = m
        for off, fd in sf.items():
            na = fresh_arr('ins'); of = o.fields.get(off)
            if of is not None and of.kind != fd.kind: raise Unsupported('values of another type')
            oa = of.arr if of is not None else fd.arr
            st.assume(z3.ForAll([x], z3.Select(na, x) == z3.If(z3.Select(old, x), z3.Select(oa, x), z3.Select(fd.arr, x)), patterns=[z3.Select(na, x)]))
            o.fields[off] = Field(fd.kind, na, fd.size)
        return True
    if isinstance(f, Ptr) and isinstance(l, Ptr):
        if f.obj != l.obj: ex.fail(st, 'range of one sequence', 'memory', line); return False
        if f.obj is None: return True
        so = st.objs.get(f.obj)
        if so is None or not so.alive: ex.fail(st, 'range of a live sequence', 'memory', line); return False
        if so.mode == 'S': raise Unsupported('range over a structure')
        o = st.objs[oid]
        if o.name == 'map' : raise Unsupported('map from a sequence range')
        fd = so.fields.get(f.off)
        if fd is None:
            if ex.quick(st, zi(f.idx) == zi(l.idx)): return True
            raise Unsupported('range of unknown elements')
        if not ex.oblige(st, And(le_t(0, f.idx), le_t(f.idx, l.idx), le_t(l.idx, so.n)), 'range within its sequence', 'memory', line): return False
        x, i = z3.Ints('x!r i!r'); old = o.member; m = fresh_arr('fromseq', 'bool'); wit = fresh_arr('where')
        lo, hi = zi(f.idx), zi(l.idx); cv = (lambda t: t) if fd.kind == o.etype else elem_conv(fd.kind, o.etype); A = lambda i: cv(z3.Select(fd.arr, i))
        st.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Or(z3.Select(old, x), z3.And(lo <= z3.Select(wit, x), z3.Select(wit, x) < hi, A(z3.Select(wit, x)) == x))), patterns=[z3.Select(m, x)]))
        st.assume(z3.ForAll([x], z3.Implies(z3.Select(old, x), z3.Select(m, x)), patterns=[z3.Select(old, x)] if old.num_args() == 0 else [z3.Select(m, x)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Select(m, A(i))), patterns=[z3.Select(fd.arr, i)]))
        card_facts(st, m); card_facts(st, old); st.assume(z3.And(CARD(m) >= CARD(old), CARD(m) <= CARD(old) + hi - lo))
        if old.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            # as many members as positions exactly when no two positions hold equal elements
            j = z3.Int('j!r'); i1, j1 = fresh_int('i'), fresh_int('j'); g = lambda i, j: z3.And(lo <= i, i < j, j < hi)
            st.assume(z3.Implies(CARD(m) != hi - lo, z3.And(g(i1, j1), A(i1) == A(j1)))); st.assume(z3.Implies(CARD(m) == hi - lo, z3.ForAll([i, j], z3.Implies(g(i, j), A(i) != A(j)), patterns=[z3.MultiPattern(z3.Select(fd.arr, i), z3.Select(fd.arr, j))])))
        o = st.w(oid); o.member = m; return True
    raise Unsupported('insertion of an unknown kind of range')
@oc('~map', '~set')
def oc_dtor(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    o = st.w(ct.store); o.alive = False
    o = st.w(a[0].obj); del o.cells[a[0].off]; return ret(st)
@oc('operator=')
def oc_assign(ex, st, a, c):
    d = cont(ex, st, a[0], None, c.line); s = cont(ex, st, a[1], None, c.line)
    if d is None or s is None: return dead()
    if same(a[0], a[1]): return ret(st, a[0])
    if c.dem.endswith('&&)'):
        e = new_nodes(st, d.kind, st.objs[d.store].etype)
        st.w(d.store).alive = False
        put_cont(ex, st, a[1], Cont(d.kind, e.id), c.line); put_cont(ex, st, a[0], s, c.line)
    else:
        st.w(d.store).alive = False
        o = clone_nodes(st, s.store); put_cont(ex, st, a[0], Cont(d.kind, o.id), c.line)
    return ret(st, a[0])
@oc('swap')
def oc_swap(ex, st, a, c):
    d = cont(ex, st, a[0], None, c.line); s = cont(ex, st, a[1], None, c.line)
    if d is None or s is None: return dead()
    put_cont(ex, st, a[0], s, c.line); put_cont(ex, st, a[1], d, c.line); return ret(st)
@oc('size')
def oc_size(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    m = st.objs[ct.store].member; card_facts(st, m)
    return ret(st, 0 if m.decl().kind() == z3.Z3_OP_CONST_ARRAY else CARD(m))
@oc('empty')
def oc_empty(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    m = st.objs[ct.store].member; card_facts(st, m); return ret(st, simp(CARD(m) == 0))
@oc('begin', 'cbegin')
def oc_begin(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    m = freeze(st, st.objs[ct.store]); return ret(st, Iter(ct.store, simp(CARD(m) == 0), NTH(m, 0)))
@oc('end', 'cend')
def oc_end(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    return ret(st, Iter(ct.store, True, 0))
def with_key(g):
    def h(ex, st, a, c):
        ct = cont(ex, st, a[0], None, c.line)
        if ct is None: return dead()
        k = key_at(ex, st, a[1], st.objs[ct.store].etype, c.line)
        if k is None: return dead()
        return g(ex, st, a, c, ct, k)
    return h
@oc('find')
@with_key
def oc_find(ex, st, a, c, ct, k):
    return ret(st, Iter(ct.store, Not(select(st.objs[ct.store].member, k)), k))
@oc('count')
@with_key
def oc_count(ex, st, a, c, ct, k): return ret(st, Ite(select(st.objs[ct.store].member, k), 1, 0))
@oc('contains')
@with_key
def oc_contains(ex, st, a, c, ct, k): return ret(st, select(st.objs[ct.store].member, k))
@oc('lower_bound', 'upper_bound')
@with_key
def oc_lb(ex, st, a, c, ct, k):
    m = freeze(st, st.objs[ct.store]); up = 'upper' in simple_name(c.dem); x = z3.Int('x!l')
    e = fresh_bool('lbend'); r = fresh_int('lb')
    ge = (lambda t: t > zi(k)) if up else (lambda t: t >= zi(k))
    st.assume(z3.Implies(e, z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Not(ge(x))), patterns=[z3.Select(m, x)])))
    st.assume(z3.Implies(z3.Not(e), z3.And(z3.Select(m, r), ge(r), z3.ForAll([x], z3.Implies(z3.And(z3.Select(m, x), ge(x)), r <= x), patterns=[z3.Select(m, x)]))))
    return ret(st, Iter(ct.store, e, r))
@oc('at')
@with_key
def oc_at(ex, st, a, c, ct, k):
    g = select(st.objs[ct.store].member, k); outs = []
    if OOM and not ex.quiet or g is not True and feasible(st, Not(g)):
        s2 = st.copy()
        if not OOM: s2.assume(Not(g), 'br')
        outs.append(thr(s2, '_ZTISt12out_of_range', 'map::at'))
    if g is not False and feasible(st, g):
        st.assume(g, 'br'); outs.append(Outcome('ret', st, Ptr(ct.store, k, 0 if ct.kind == 'set' else voff(st, ct, c))))
    return outs
def voff(st, ct, c):
    """offset of the mapped value inside the node"""
    o = st.objs[ct.store]
    if ct.info: return ct.info
    ks = 8 if o.etype.startswith('op:') else int(o.etype[1:]) // 8
    t = clsargs(c.dem)
    vs = sizeof(t[1]) if len(t) > 1 else None
    al = 8 if vs is None or vs >= 8 else vs
    return -(-ks // al) * al
def default_cells(t):
    t = t.strip()
    m = re.match(r'vf::([A-Z])$', t)
    if m: return {0: (Op(m.group(1), DEFAULT(m.group(1))), SIZES[t])}
    n = SIZES.get(t)
    if n: return {0: (Flt(z3.RealVal(0)) if t in ('double', 'float') else 0, n)}
    if t.endswith('*'): return {0: (NULL, 8)}
    raise Unsupported(f'default value of {t}')
@oc('operator[]')
@with_key
def oc_index(ex, st, a, c, ct, k):
    g = select(st.objs[ct.store].member, k); off = voff(st, ct, c)
    # absent: a default value is inserted
    if g is not True:
        o = st.w(ct.store); insert_key(ex, st, o, k); o = st.objs[ct.store]
        for d, (v, sz) in default_cells(targs(c.dem)[1]).items():
            f = ex.field(st, o, off + d, v, sz)
            o.fields[off + d] = Field(f.kind, z3.Store(f.arr, zi(k), zi(Ite(g, select(f.arr, k), ex.tocell(st, v, sz)))), sz)
    return ret(st, Ptr(ct.store, k, off))
def node_insert(ex, st, ct, k, cells, c, overwrite=False):
    """insert a node (cells without the key, by offset); existing nodes keep their value"""
    o = st.w(ct.store); was = insert_key(ex, st, o, k); o = st.w(ct.store)
    for off, (v, sz) in cells.items():
        if off == 0: continue
        if isinstance(v, Undef): continue
        f = ex.field(st, o, off, v, sz)
        nv = ex.tocell(st, v, sz)
        nv = nv if overwrite or was is False else Ite(was, select(f.arr, k), nv) if was is not True else select(f.arr, k)
        o.fields[off] = Field(f.kind, z3.Store(f.arr, zi(k), zi(nv)), sz)
    return Agg([Iter(ct.store, False, k), Ite(Not(was), 1, 0)])
def ptype(c, i):
    """i-th parameter type of the call"""
    d = c.dem; k = d.rindex('(') if d.endswith(')') else d[:d.rindex(')')].rindex('(')
    # parameters of the outermost list
    depth = 0; j = len(d) - 1
    while d[j] != ')': j -= 1
    e = j
    while True:
        if d[j] == ')': depth += 1
        elif d[j] == '(':
            depth -= 1
            if depth == 0: break
        j -= 1
    return targs('<' + d[j+1:e] + '>')[i]
@oc('insert')
def oc_insert(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    p0 = ptype(c, 0)
    if len(a) == 2 or (len(a) == 3 and isinstance(a[1], Iter) and isinstance(a[2], Ptr)):
        src = a[-1]; n = None
        cells = ex.cells_at(st, src, None if ct.kind == 'map' else sizeof(clsargs(c.dem)[0]) or 8, c.line)
        if cells is None: return dead()
        so = st.objs[src.obj]
        if ct.kind == 'map': cells = {o: v for o, v in cells.items() if o >= 0}
        k = cells.get(0)
        if k is None or isinstance(k[0], Undef): ex.fail(st, 'insertion of an element that is not alive', 'memory', c.line); return dead()
        k = k[0].t if isinstance(k[0], Op) else ex.norm_u(st, k[0], k[1] * 8)
        if ct.kind == 'map':
            vs = sizeof(clsargs(c.dem)[1])
            lim = None if vs is None else 8 + vs
            cells = {o: v for o, v in cells.items() if lim is None or o < max(lim, 16)}
        else: cells = {}
        r = node_insert(ex, st, ct, k, cells, c)
        return ret(st, r if len(a) == 2 else r.v[0])
    if len(a) == 3 and 'initializer_list' in p0:
        l = ex.padd(st, a[1], 0, [(ex.norm_u(st, a[2], 64), 64, sizeof(targs(p0)[0]) or 8)], c.line)
        return ret(st) if insert_range(ex, st, ct.store, a[1], l, c.line) else dead()
    if len(a) == 3: return ret(st) if insert_range(ex, st, ct.store, a[1], a[2], c.line, mapval(c, ct.kind)) else dead()
    raise Unsupported(f'{c.dem[:120]}')
@oc('emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign')
def oc_emplace(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    nm = simple_name(c.dem).split('::')[-1]; args = a[1:]; tys = [ptype(c, i) for i in range(len(args))]
    if nm == 'emplace_hint': args, tys = args[1:], tys[1:]
    if ct.kind == 'map' and len(args) == 2:
        k = key_at(ex, st, args[0], st.objs[ct.store].etype, c.line)
        if k is None: return dead()
        off = voff(st, ct, c); vt = clsargs(c.dem)[1]; at = tys[1].replace('const', '').replace('&', '').strip()
        if at != vt: raise Unsupported(f'emplace of {vt} from {at}')
        cells = ex.cells_at(st, args[1], sizeof(at), c.line)
        if cells is None: return dead()
        r = node_insert(ex, st, ct, k, {off + d: v for d, v in cells.items()}, c, nm == 'insert_or_assign')
        return ret(st, r if nm != 'emplace_hint' else r.v[0])
    if len(args) == 1:
        cells = ex.cells_at(st, args[0], None, c.line)
        if cells is None or 0 not in cells: raise Unsupported('emplace argument')
        k = cells[0][0].t if isinstance(cells[0][0], Op) else ex.norm_u(st, cells[0][0], cells[0][1] * 8)
        r = node_insert(ex, st, ct, k, cells if ct.kind == 'map' else {}, c); return ret(st, r if nm != 'emplace_hint' else r.v[0])
    raise Unsupported(c.dem[:120])
def rank_term(ex, st, m, key):
    """position of a member in the enumeration of m"""
    key = zi(key)
    if z3.is_app(key) and key.decl().name() == 'nth' and key.arg(0).eq(m):
        t = key.arg(1)
        if ex.quick(st, z3.And(t >= 0, t < CARD(m))): return t
    return RANK(m, key)
def it_next(ex, st, it, line):
    if isinstance(it, Undef):
        if it is HAVOC: raise Unsupported('iterator left over from an earlier iteration')
        ex.fail(st, 'use of an uninitialised iterator', 'memory', line); return None
    if not isinstance(it, Iter): raise Unsupported('iterator expected')
    o = st.objs.get(it.store)
    if o is None or not o.alive: ex.fail(st, 'iterator of a destroyed container', 'memory', line); return None
    if not ex.oblige(st, Not(it.isend), 'iterator advanced is not end()', 'memory', line): return None
    if not ex.oblige(st, select(o.member, it.key), 'iterator advanced refers to an element still in the container', 'memory', line): return None
    m = freeze(st, o); r = zi(rank_term(ex, st, m, it.key)); return Iter(it.store, simp(r + 1 >= CARD(m)), NTH(m, zi(simp(r + 1))))
def it_prev(ex, st, it, line):
    if not isinstance(it, Iter): raise Unsupported('iterator expected')
    o = st.objs.get(it.store)
    if o is None or not o.alive: ex.fail(st, 'iterator of a destroyed container', 'memory', line); return None
    m = freeze(st, o)
    r = Ite(it.isend, CARD(m), zi(rank_term(ex, st, m, it.key)))
    if not ex.oblige(st, And(Or(it.isend, select(m, it.key)), lt_t(0, r)), 'iterator moved back is valid and not begin()', 'memory', line): return None
    return Iter(it.store, False, NTH(m, zi(sub(r, 1))))
@oc('erase')
def oc_erase(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    if len(a) == 2 and isinstance(a[1], Iter):
        it = a[1]
        if it.store != ct.store: ex.fail(st, 'erase of an iterator of another container', 'memory', c.line); return dead()
        if not ex.oblige(st, Not(it.isend), 'erase of an iterator that is not end()', 'memory', c.line): return dead()
        if not ex.oblige(st, select(st.objs[ct.store].member, it.key), 'erase of an element still in the container', 'memory', c.line): return dead()
        nx = it_next(ex, st, it, c.line)
        erase_key(ex, st, st.objs[ct.store], it.key); return ret(st, nx)
    if len(a) == 2:
        k = key_at(ex, st, a[1], st.objs[ct.store].etype, c.line)
        if k is None: return dead()
        was = erase_key(ex, st, st.objs[ct.store], k); return ret(st, Ite(was, 1, 0))
    if len(a) == 3 and isinstance(a[1], Iter):
        if ex.quick(st, z3.And(zb(a[2].isend), z3.Or(zb(a[1].isend), zi(a[1].key) == NTH(freeze(st, st.objs[ct.store]), 0)))): return oc_clear(ex, st, a[:1], c)
    raise Unsupported(c.dem[:120])
@oc('clear')
def oc_clear(ex, st, a, c):
    ct = cont(ex, st, a[0], None, c.line)
    if ct is None: return dead()
    o = st.w(ct.store); o.member = z3.K(z3.IntSort(), z3.BoolVal(False)); return ret(st, Iter(ct.store, True, 0))
@rx(r'^std::_Rb_tree(_const)?_iterator::operator(\*|->)$')
def rb_deref(ex, st, a, c):
    it = ex.load(st, a[0], 'ptr', 8, c.line)
    if it is None: return dead()
    p = itdrf(ex, st, it, c.line); return ret(st, p) if p is not None else dead()
@rx(r'^std::_Rb_tree(_const)?_iterator::operator(\+\+|--)$')
def rb_inc(ex, st, a, c):
    it = ex.load(st, a[0], 'ptr', 8, c.line)
    if it is None: return dead()
    n = (it_next if c.dem.count('operator++') else it_prev)(ex, st, it, c.line)
    if n is None: return dead()
    if not ex.store(st, a[0], n, 8, c.line): return dead()
    return ret(st, it if c.dem.endswith('(int)') else a[0])
@rx(r'^std::_Rb_tree(_const)?_iterator::_Rb_tree(_const)?_iterator$')
def rb_ctor(ex, st, a, c):
    if len(a) == 1: return ret(st) if ex.store(st, a[0], Undef('singular iterator'), 8, c.line) else dead()
    v = a[1]
    if isinstance(v, Ptr):
        v = ex.load(st, v, 'ptr', 8, c.line)
        if v is None: return dead()
    return ret(st) if ex.store(st, a[0], v, 8, c.line) else dead()
@rx(r'^std::_Rb_tree_const_iterator::_M_const_cast$')
def rb_cc(ex, st, a, c):
    v = ex.load(st, a[0], 'ptr', 8, c.line); return ret(st, v) if v is not None else dead()
@on('std::operator==', 'std::operator!=')
def std_eq(ex, st, a, c):
    d = c.dem
    pt = ptype(c, 0)
    if '_Rb_tree' in pt and 'iterator' in pt or '_List_' in pt and 'iterator' in pt:
        x, y = ex.load(st, a[0], 'ptr', 8, c.line), ex.load(st, a[1], 'ptr', 8, c.line)
        if x is None or y is None: return dead()
        r = ex.icmp(st, 'ne' if simple_name(d).endswith('!=') else 'eq', x, y, 64, c.line)
        return ret(st, r) if r is not None else dead()
    h = EQ_MODELS.get(re.match(r'std::(__cxx11::)?([\w]+)', pt).group(2)) if re.match(r'std::(__cxx11::)?([\w]+)', pt) else None
    if h: return h(ex, st, a, c, simple_name(d).endswith('!='))
    if c.name in ex.funcs: return ex.exec_fn(st, c.name, a, c.depth + 1)
    raise Unsupported(d[:140])
EQ_MODELS = {}
def set_eq(ex, st, a, c, neg):
    x, y = cont(ex, st, a[0], None, c.line), cont(ex, st, a[1], None, c.line)
    if x is None or y is None: return dead()
    ox, oy = st.objs[x.store], st.objs[y.store]; q = z3.Int('q!q')
    g = [z3.Select(ox.member, q) == z3.Select(oy.member, q)]
    for off, f in ox.fields.items():
        if off in oy.fields: g.append(z3.Implies(z3.Select(ox.member, q), z3.Select(f.arr, q) == z3.Select(oy.fields[off].arr, q)))
    e = fresh_bool('seteq'); w = fresh_int('diff')
    st.assume(z3.Implies(e, z3.ForAll([q], z3.And(*g)))); st.assume(z3.Implies(z3.Not(e), z3.Not(z3.substitute(z3.And(*g), (q, w)))))
    return ret(st, z3.Not(e) if neg else e)
EQ_MODELS['set'] = set_eq; EQ_MODELS['map'] = set_eq
