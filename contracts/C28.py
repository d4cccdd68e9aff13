"""The stack trace printer against arbitrary stacks and symbols: any number of frames that the buffer can take, any of
them unknown to the dynamic loader, without a symbol name, or with a name that cannot be demangled."""
from api import *
import text as T
HARNESS = [('C28.cpp', '-DENABLE_STACK_TRACE'), 'C28.cpp']
ASSUMPTIONS = ['backtrace fills at most the number of entries it is given and returns how many it filled; backtrace_symbols obtains one block holding a readable name for each of them',
               'dladdr fills the information block exactly when it succeeds, with a symbol name that may be null; __cxa_demangle returns storage to be released when it succeeds and null when it fails, and reads only the name',
               'symbol names contain no line break', 'a character written is not refused by the error stream']
KNOWN = z3.Function('known', z3.IntSort(), z3.BoolSort()); NAMED = z3.Function('named', z3.IntSort(), z3.BoolSort()); DEM = z3.Function('demangles', z3.IntSort(), z3.BoolSort())
def frame(st, t): return Rec('frame', t=t)
def symbol(st, t): return Rec('cstr', text=Text((('fn', 'symbol', (t,)),)))
def buffer(ex, st, p, n, line, what):
    """the array p points to must have n entries"""
    o = ex.obj(st, p, line, what)
    if o is None: return None
    if o.mode == 'S': ex.toarray(st, p.obj, 8); o = st.objs[p.obj]
    p = ex.fix(st, Ptr(p.obj, p.idx if p.idx is not None else 0, p.off, p.ep))
    if p.off: raise Unsupported('buffer')
    if not ex.oblige(st, And(le_t(0, p.idx), le_t(add(p.idx, n), o.n)), f'{what}: the array has as many entries as are asked for', 'memory', line): return None
    return st.w(p.obj), p
@models.sym('backtrace')
def backtrace(ex, st, a, c):
    n = ex.norm_s(st, a[1], 32)
    if not ex.oblige(st, le_t(0, n), 'number of frames asked for not negative', 'pre', c.line): return dead()
    r = buffer(ex, st, a[0], n, c.line, 'backtrace')
    if r is None: return dead()
    o, p = r; k = fresh_int('frames', 0, 1 << 31); st.assume(z3.And(k >= 0, k <= zi(n)))
    o.fields[0] = Field(('custom', frame), fresh_arr('frame'), 8); q = z3.Int('q!bt'); L = z3.Array(fresh_name('filled'), z3.IntSort(), z3.BoolSort())
    st.assume(z3.ForAll([q], z3.Select(L, q) == z3.And(zi(p.idx) <= q, q < zi(p.idx) + k), patterns=[z3.Select(L, q)])); o.live[0] = L
    st.ghost['frames'] = k; st.ghost['buffer'] = o.id; return ret(st, k)
@models.sym('backtrace_symbols')
def backtrace_symbols(ex, st, a, c):
    n = ex.norm_s(st, a[1], 32)
    if not ex.oblige(st, le_t(0, n), 'number of frames not negative', 'pre', c.line): return dead()
    r = buffer(ex, st, a[0], n, c.line, 'backtrace_symbols')
    if r is None: return dead()
    o, p = r; q = fresh_int('q')
    if 0 not in o.live or not ex.oblige(st, z3.Implies(z3.And(zi(p.idx) <= q, q < zi(p.idx) + zi(n)), z3.Select(o.live[0], q)), 'only frames that were captured are looked up', 'memory', c.line): return dead()
    s = new_obj(st, 'A', 'heap', 'symbols'); s.how = 'malloc'; s.esz = 8; s.n = zi(n); s.fields[0] = Field(('custom', symbol), fresh_arr('symbol'), 8)
    return ret(st, Ptr(s.id, 0, 0))
@models.sym('dladdr')
def dladdr(ex, st, a, c):
    f = a[0]
    if not (isinstance(f, Rec) and f.kind == 'frame'): raise Unsupported('dladdr of something else than a frame')
    o = ex.obj(st, a[1], c.line, 'dladdr')
    if o is None: return dead()
    if o.mode != 'S' or o.size is not None and a[1].off + 32 > o.size: raise Unsupported('information block')
    outs = []
    for known, named in ((True, True), (True, False), (False, False)):
        s = st.copy(); s.assume(KNOWN(f.t) if known else z3.Not(KNOWN(f.t)), 'br')
        if known: s.assume(NAMED(f.t) if named else z3.Not(NAMED(f.t)), 'br')
        if not feasible(s): continue
        if known:
            d = s.w(a[1].obj); ex.clear(d, a[1].off, 32); base = a[1].off
            d.cells[base] = (Rec('cstr', text=Text((('fn', 'file', (f.t,)),))), 8); d.cells[base + 8] = (Rec('frame', t=f.t), 8)
            d.cells[base + 16] = (Rec('cstr', text=Text((('fn', 'name', (f.t,)),))) if named else NULL, 8); d.cells[base + 24] = (Rec('frame', t=f.t), 8)
        outs += ret(s, 1 if known else 0)
    return outs
@models.sym('__cxa_demangle')
def demangle(ex, st, a, c):
    nm, buf, ln, status = a
    if isinstance(nm, Ptr) and nm.obj is None: key = None
    elif isinstance(nm, Rec) and nm.kind == 'cstr': key = nm.text.a[0]
    else: raise Unsupported('demangled name')
    if not (isinstance(buf, Ptr) and buf.obj is None): raise Unsupported('demangling into a buffer')
    if key is None: ex.fail(st, 'demangling of a null name', 'memory', c.line); return dead()
    outs = []
    for ok in (True, False):
        s = st.copy(); b = DEM(key[2][0]) if key[1] == 'symbol' else fresh_bool('demangles'); s.assume(b if ok else z3.Not(b), 'br')
        if not feasible(s): continue
        if isinstance(status, Ptr) and status.obj is not None:
            v = 0 if ok else fresh_int('status', -3, -1)
            if not ok: s.assume(z3.And(v >= -3, v <= -1))
            if not ex.store(s, status, v, 4, c.line): continue
        if not ok: outs += ret(s, NULL); continue
        if isinstance(ln, Ptr) and ln.obj is not None:
            v = fresh_int('length', 1, 1 << 32); s.assume(v >= 1)
            if not ex.store(s, ln, v, 8, c.line): continue
        o = new_obj(s, 'S', 'heap', 'demangled'); o.how = 'malloc'; o.cells[-2000] = (Rec('str', text=Text((('fn', 'demangled', key[2]),))), 32); outs += ret(s, Ptr(o.id))
    return outs
def lines(atoms, st):
    """number of line breaks written"""
    n = z3.IntVal(0)
    for a in atoms:
        if a[0] == 'lit': n = n + a[1].count('\n')
        elif a[0] == 'char': n = n + z3.If(zi(a[1]) == 10, 1, 0)
        elif a[0] == 'if': n = n + z3.If(zb(a[1]), lines(a[2], st), lines(a[3], st))
        elif a[0] == 'fold':
            j = fresh_int('j'); s = st.copy(); s.assume(z3.And(zi(a[2]) <= j, j < zi(a[3]))); k = lines(a[1].piece(j), s)
            if not prove(s, k == 1).ok: return None
            n = n + z3.If(zi(a[3]) > zi(a[2]), zi(a[3]) - zi(a[2]), 0)
        elif a[0] == 'var': raise Unsupported('unknown text')
        if n is None: return None
    return z3.simplify(n)
def ends_line(st, atoms):
    atoms = T.norm(atoms)
    if not atoms: return True
    a = atoms[-1]
    if a[0] == 'lit': return a[1].endswith('\n')
    if a[0] == 'if': return all(not feasible_full(st, g) or ends_line(st, x) for g, x in ((a[1], a[2]), (Not(a[1]), a[3])) if x)
    if a[0] == 'fold':
        j = fresh_int('j'); s = st.copy(); s.assume(z3.And(zi(a[2]) <= j, j < zi(a[3]))); return ends_line(s, a[1].piece(j))
    return False
def err(c, st): return st.objs[c.ex.gptr(st, '_ZSt4cerr', 0).obj].cells[-1000][0]
@contract('vf_stack_trace')
def with_support(c):
    st = c.state(); c.ex.gptr(st, '_ZSt4cerr', 0)
    for o in c.returns(c.run(st, [])):
        r = err(c, o.st)
        c.check(r.bad is False, 'the error stream is usable afterwards', f'its failure bit is {r.bad}', o.st)
        c.check(r.fmt == 0 and r.alpha is False, 'the formatting of the error stream is unchanged')
        if c.check('frames' in o.st.ghost, 'the stack is captured'):
            n = lines(r.text.a, o.st); c.check(n is not None, 'each repetition writes exactly one line')
            if n is not None: c.prove(o.st, n == o.st.ghost['frames'], 'as many lines are written as frames were captured'); c.check(ends_line(o.st, r.text.a), 'the last line is complete')
        c.noleak(o.st)
@contract('vf_stack_trace', module=1)
def without_support(c):
    st = c.state(); c.ex.gptr(st, '_ZSt4cerr', 0)
    for o in c.returns(c.run(st, [])): r = err(c, o.st); c.check(r.bad is False and not T.norm(r.text.a), 'nothing is written'); c.check('frames' not in o.st.ghost, 'the stack is not looked at'); c.noleak(o.st)
