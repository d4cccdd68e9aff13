"""Deductive verifier for LLVM IR compiled from the real sources: values, memory, state, solver."""
import z3, re, time, itertools, os, sys
from fractions import Fraction

class Unsupported(Exception):
    """The code uses something the verifier has no rule for: the obligation is undecided, not failed."""

# ---------------------------------------------------------------- names
def simple_name(dem):
    """qualified function name without template arguments, parameters and return type"""
    s = dem; out = []; d = 0; i = 0; n = len(s)
    s = re.sub(r'\[abi:\w+\]', '', s); n = len(s)
    while i < n:
        if s.startswith('operator', i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            m = re.match(r'operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\]|[-+*/%^&|~!=,]+|new\[\]|delete\[\]|new|delete)', s[i:])
            if m:
                if d == 0: out.append('operator' + m.group(1))
                i += m.end(); continue
            # conversion operator: 'operator T()' or 'operator bool()'
            m = re.match(r'operator [^()]*', s[i:])
            if m:
                if d == 0: out.append('operator-conv')
                i += m.end(); continue
        c = s[i]
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0:
            if c == '(':
                if s.startswith('(anonymous namespace)', i):
                    out.append('anon'); i += 21; continue
                if s.startswith("({lambda", i) or s.startswith("'lambda", i): pass
                break
            out.append(c)
        i += 1
    r = ''.join(out).strip()
    # drop the return type: the last space at depth 0 that is not inside operator names
    if ' ' in r and not r.startswith('operator'):
        k = r.rfind(' ')
        r = r[k+1:]
    return r.lstrip('&*')

def targs(s, i=None):
    """template arguments of the first <...> in s"""
    if i is None: i = s.find('<')
    if i < 0: return []
    d = 0; cur = ''; out = []
    for ch in s[i:]:
        if ch == '<':
            d += 1
            if d == 1: continue
        if ch == '>':
            d -= 1
            if d == 0: out.append(cur.strip()); return out
        if ch == ',' and d == 1: out.append(cur.strip()); cur = ''; continue
        cur += ch
    return out

SIZES = {'vf::K': 8, 'vf::P': 8, 'vf::G': 8, 'vf::V': 16, 'vf::E': 24, 'bool': 1, 'char': 1, 'unsigned char': 1, 'int': 4, 'unsigned int': 4, 'long': 8,
         'unsigned long': 8, 'double': 8, 'float': 4, 'short': 2, 'unsigned short': 2}
def sizeof(t):
    t = t.replace(' const', '').strip()
    if t in SIZES: return SIZES[t]
    if t.endswith('*'): return 8
    if t.startswith('std::pair<'):
        a, b = targs(t)[:2]; x, y = sizeof(a), sizeof(b)
        if x is None or y is None: return None
        al = max(min(8, x), min(8, y))
        off = -(-x // min(8, y)) * min(8, y)
        return -(-(off + y) // al) * al
    return None

# ---------------------------------------------------------------- values
_ctr = itertools.count()
VB = {}                       # const name -> (lo, hi)
ARRB = {}                     # array const name -> (lo, hi)
BIRTH = {}                    # const name -> creation index
def fresh_name(p): return f'{p}!{next(_ctr)}'
def fresh_int(p, lo=None, hi=None):
    n = fresh_name(p); VB[n] = (lo, hi); BIRTH[n] = next(_ctr); return z3.Int(n)
def fresh_bool(p): n = fresh_name(p); BIRTH[n] = next(_ctr); return z3.Bool(n)
def fresh_real(p): n = fresh_name(p); BIRTH[n] = next(_ctr); return z3.Real(n)
def fresh_arr(p, rng='int', lo=None, hi=None):
    n = fresh_name(p); ARRB[n] = (lo, hi); BIRTH[n] = next(_ctr)
    return z3.Array(n, z3.IntSort(), z3.BoolSort() if rng == 'bool' else z3.RealSort() if rng == 'real' else z3.IntSort())

class Undef:
    def __init__(self, why='uninitialised'): self.why = why
    def __repr__(self): return f'Undef({self.why})'
UNDEF = Undef()
HAVOC = Undef('havoc')

class Ptr:
    """pointer: object id, element index (term, or None for a structure object), constant byte offset"""
    __slots__ = ('obj', 'idx', 'off', 'ep')
    def __init__(self, obj, idx=None, off=0, ep=None): self.obj = obj; self.idx = idx; self.off = off; self.ep = ep
    def __repr__(self): return f'Ptr({self.obj},{self.idx},{self.off})'
NULL = Ptr(None, None, 0)
class Iter:
    """position in an ordered node container"""
    __slots__ = ('store', 'isend', 'key')
    def __init__(self, store, isend, key): self.store = store; self.isend = isend; self.key = key
    def __repr__(self): return f'Iter({self.store},end={self.isend},key={self.key})'
class LIter:
    """position in a list; pos None is end()"""
    __slots__ = ('store', 'isend', 'pos')
    def __init__(self, store, isend, pos): self.store = store; self.isend = isend; self.pos = pos
class Op:
    """value of an opaque element type"""
    __slots__ = ('kind', 't')
    def __init__(self, kind, t): self.kind = kind; self.t = t
    def __repr__(self): return f'Op({self.kind},{self.t})'
class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return f'Fn({self.name})'
class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class Flt:
    """floating-point value: a real number t, or not a number"""
    __slots__ = ('t', 'nan')
    def __init__(self, t, nan=False): self.t = t; self.nan = nan
    def plain(self):
        """one term for the value, where not-a-number is a distinguished constant"""
        return self.t if self.nan is False else z3.If(self.nan, NAN, self.t)
    def __repr__(self): return f'Flt({self.t})' if self.nan is False else f'Flt({self.t}, nan {self.nan})'
NAN = z3.Real('not-a-number')
class Cont:
    """a standard container living in a cell: refers to its store object"""
    __slots__ = ('kind', 'store', 'info')
    def __init__(self, kind, store, info=None): self.kind = kind; self.store = store; self.info = info
    def __repr__(self): return f'Cont({self.kind},{self.store})'
class Text:
    """output text: a tuple of atoms (see text.py)"""
    __slots__ = ('a',)
    def __init__(self, a=()): self.a = tuple(a)
    def __repr__(self): return f'Text{self.a}'
class Rec:
    """generic immutable model record living in a cell (streams, smart pointers, functions)"""
    __slots__ = ('kind', 'f')
    def __init__(self, kind, **f): self.kind = kind; self.f = f
    def __getattr__(self, n):
        try: return self.f[n]
        except KeyError: raise AttributeError(n)
    def upd(self, **k): g = dict(self.f); g.update(k); return Rec(self.kind, **g)
    def __repr__(self): return f'Rec({self.kind},{self.f})'

def same(a, b):
    if a is b: return True
    if type(a) is not type(b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
        return False
    if isinstance(a, z3.ExprRef): return a.eq(b)
    if isinstance(a, Ptr): return a.obj == b.obj and same(a.idx, b.idx) and a.off == b.off and a.ep is b.ep
    if isinstance(a, Iter): return a.store == b.store and same(a.isend, b.isend) and same(a.key, b.key)
    if isinstance(a, LIter): return a.store == b.store and same(a.isend, b.isend) and same(a.pos, b.pos)
    if isinstance(a, Op): return a.kind == b.kind and same(a.t, b.t)
    if isinstance(a, Flt): return same(a.t, b.t) and same(a.nan, b.nan)
    if isinstance(a, Fn): return a.name == b.name
    if isinstance(a, Cont): return a.kind == b.kind and a.store == b.store
    if isinstance(a, Text): return len(a.a) == len(b.a) and all(same(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Rec): return a.kind == b.kind and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, (tuple, list)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Agg): return same(a.v, b.v)
    if isinstance(a, Undef): return True
    return a == b

def zi(x):
    """z3 Int of an int value"""
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def simp(t):
    if isinstance(t, (int, bool)): return t
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return simp(zi(a) + zi(b))
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return simp(zi(a) - zi(b))
def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    return simp(zi(a) * zi(b))
def eq_t(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return simp(zi(a) == zi(b))
def lt_t(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return simp(zi(a) < zi(b))
def le_t(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return simp(zi(a) <= zi(b))
def Not(c): return (not c) if isinstance(c, bool) else z3.BoolVal(False) if z3.is_true(c) else simp(z3.Not(c))
def And(*cs):
    r = []
    for c in cs:
        if isinstance(c, bool):
            if not c: return False
        else: r.append(c)
    return True if not r else r[0] if len(r) == 1 else simp(z3.And(*r))
def Or(*cs):
    r = []
    for c in cs:
        if isinstance(c, bool):
            if c: return True
        else: r.append(c)
    return False if not r else r[0] if len(r) == 1 else simp(z3.Or(*r))
def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same(a, b): return a
    if isinstance(a, (bool, z3.BoolRef)): return simp(z3.If(c, zb(a), zb(b)))
    return z3.If(c, zi(a), zi(b))
def select(arr, i): return simp(z3.Select(arr, zi(i)))

_bcache = {}
def bounds(t):
    """interval of an Int term from the ranges of its constants"""
    if isinstance(t, int): return (t, t)
    k = t.get_id()
    r = _bcache.get(k)
    if r is not None: return r[0]
    r = _bounds(t)
    _bcache[k] = (r, t)
    return r
def _bounds(t):
    if z3.is_int_value(t): v = t.as_long(); return (v, v)
    d = t.decl(); k = d.kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        if t.num_args() == 0: return VB.get(d.name(), (None, None))
        return FNB.get(d.name(), (None, None))
    if k == z3.Z3_OP_ADD:
        lo = hi = 0
        for c in t.children():
            a, b = bounds(c)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return (lo, hi)
    if k == z3.Z3_OP_SUB and t.num_args() == 2:
        (a, b), (c, d2) = bounds(t.arg(0)), bounds(t.arg(1))
        return (None if a is None or d2 is None else a - d2, None if b is None or c is None else b - c)
    if k == z3.Z3_OP_UMINUS:
        a, b = bounds(t.arg(0)); return (None if b is None else -b, None if a is None else -a)
    if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        c = t.arg(0).as_long(); a, b = bounds(t.arg(1))
        if c < 0: a, b = b, a
        return (None if a is None else c * a, None if b is None else c * b)
    if k == z3.Z3_OP_ITE:
        (a, b), (c, d2) = bounds(t.arg(1)), bounds(t.arg(2))
        return (None if a is None or c is None else min(a, c), None if b is None or d2 is None else max(b, d2))
    if k == z3.Z3_OP_SELECT: return arrbounds(t.arg(0))
    if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)): return (0, t.arg(1).as_long() - 1)
    if k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        a, b = bounds(t.arg(0)); c = t.arg(1).as_long()
        return (None if a is None else a // c, None if b is None else b // c)
    return (None, None)
FNB = {}
def arrbounds(a):
    k = a.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED: return ARRB.get(a.decl().name(), (None, None))
    if k == z3.Z3_OP_STORE:
        (x, y), (u, v) = arrbounds(a.arg(0)), bounds(a.arg(2))
        return (None if x is None or u is None else min(x, u), None if y is None or v is None else max(y, v))
    if k == z3.Z3_OP_CONST_ARRAY: return bounds(a.arg(0))
    if k == z3.Z3_OP_ITE:
        (a1, b), (c, d2) = arrbounds(a.arg(1)), arrbounds(a.arg(2))
        return (None if a1 is None or c is None else min(a1, c), None if b is None or d2 is None else max(b, d2))
    return (None, None)

def lin(t):
    """Int term as (dict atom-id -> (coef, atom), const)"""
    m = {}; c = 0; st = [(1, t)]
    while st:
        k, x = st.pop()
        if isinstance(x, int): c += k * x; continue
        if z3.is_int_value(x): c += k * x.as_long(); continue
        o = x.decl().kind()
        if o == z3.Z3_OP_ADD: st += [(k, y) for y in x.children()]; continue
        if o == z3.Z3_OP_SUB:
            ch = x.children(); st.append((k, ch[0])); st += [(-k, y) for y in ch[1:]]; continue
        if o == z3.Z3_OP_UMINUS: st.append((-k, x.arg(0))); continue
        if o == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)): st.append((k * x.arg(0).as_long(), x.arg(1))); continue
        i = x.get_id(); q = m.get(i, (0, x))[0] + k
        if q: m[i] = (q, x)
        else: m.pop(i, None)
    return m, c
def divexact(t, d):
    """t/d when every coefficient is divisible, else None"""
    if d == 1: return t
    if isinstance(t, int): return t // d if t % d == 0 else None
    m, c = lin(t)
    if c % d or any(k % d for k, _ in m.values()): return None
    r = c // d
    for k, x in m.values(): r = add(r, mul(k // d, x))
    return r

def consts_of(t, acc=None, seen=None):
    """names of the uninterpreted constants and functions in a term"""
    if acc is None: acc = set(); seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, z3.AstRef): continue
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            st += x.children()
    return acc

def has_quant(f, _c={}):
    if isinstance(f, bool): return False
    k = f.get_id()
    if k in _c: return _c[k][0]
    seen = set(); st = [f]; r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        st += x.children()
    _c[k] = (r, f)
    return r

# ---------------------------------------------------------------- memory
class Field:
    __slots__ = ('kind', 'arr', 'size')
    def __init__(self, kind, arr, size): self.kind = kind; self.arr = arr; self.size = size
class Obj:
    """S: structure (cells at constant offsets); A: array of elements indexed by position; N: nodes indexed by key;
    V: vector/list contents (array-like, always live)"""
    __slots__ = ('id', 'mode', 'kind', 'name', 'cells', 'size', 'esz', 'n', 'fields', 'live', 'member', 'alive', 'how', 'ep', 'hdr', 'owner', 'etype', 'bytes', 'const')
    def __init__(self, id, mode, kind, name=''):
        self.id = id; self.mode = mode; self.kind = kind; self.name = name
        self.cells = {}; self.size = None; self.esz = None; self.n = None; self.fields = {}; self.live = {}; self.member = None
        self.alive = True; self.how = None; self.ep = object(); self.hdr = 0; self.owner = None; self.etype = None; self.bytes = None; self.const = False
    def clone(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__: setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells); o.fields = dict(self.fields); o.live = dict(self.live)
        return o

# cardinality and ordered enumeration of a finite set given by its membership array
MS = z3.ArraySort(z3.IntSort(), z3.BoolSort())
CARD = z3.Function('card', MS, z3.IntSort()); FNB['card'] = (0, (1 << 60))
NTH = z3.Function('nth', MS, z3.IntSort(), z3.IntSort())
RANK = z3.Function('rank', MS, z3.IntSort(), z3.IntSort())

class State:
    __slots__ = ('objs', 'pc', 'caught', 'exc', 'memo', 'ghost', 'facts', 'tok')
    def __init__(self):
        self.objs = {}; self.pc = (); self.caught = (); self.exc = None; self.memo = {}; self.ghost = {}; self.facts = set(); self.tok = object()
    def copy(self):
        s = State.__new__(State); s.tok = object(); self.tok = object()      # objects are shared from here on
        s.objs = dict(self.objs); s.pc = self.pc; s.caught = self.caught; s.exc = self.exc; s.memo = dict(self.memo); s.ghost = dict(self.ghost); s.facts = set(self.facts)
        return s
    def assume(self, f, tag='fact'):
        if isinstance(f, bool):
            if not f: self.pc = self.pc + ((z3.BoolVal(False), tag),)
            return self
        if z3.is_true(f): return self
        if f.get_id() in self.facts and tag == 'fact': return self
        self.facts.add(f.get_id())
        self.pc = self.pc + ((f, tag),)
        return self
    def w(self, oid):
        o = self.objs[oid]
        if o.owner is not self.tok:
            o = o.clone(); o.owner = self.tok; self.objs[oid] = o
        return o
_oid = itertools.count(1)
def new_obj(st, mode, kind, name=''):
    o = Obj(next(_oid), mode, kind, name); o.owner = st.tok; st.objs[o.id] = o; return o

# ---------------------------------------------------------------- solver
class Stats:
    def __init__(self): self.queries = 0; self.time = 0.0; self.by = {}; self.cvc5 = 0; self.unknown = 0
STATS = Stats()
QF_TO = int(os.environ.get('VF_QF_TO', '1500')); FULL_TO = int(os.environ.get('VF_FULL_TO', '8000')); HOU_TO = int(os.environ.get('VF_HOU_TO', '2500'))
PATIENCE = 1           # time limits are multiplied by this when a contract is tried again
UNKNOWN = [0]
BEAT = None            # shared time of the last query, watched by the parent process
FORK = False           # solve in a forked process that can be ended
def _solve(fs, to):
    if BEAT is not None: BEAT.value = time.time()
    if any(has_quant(f) for f in fs):
        # matching alone is quick and usually enough for a proof; the default strategy, which looks for models too, follows
        t = time.time(); s = z3.SimpleSolver(); s.set(auto_config=False, mbqi=False, timeout=min(to, 2000) * PATIENCE)
        for f in fs: s.add(f)
        r = s.check(); STATS.queries += 1; STATS.time += time.time() - t
        if r == z3.unsat: return r, s
    if FORK: return fork_solve(fs, to)
    s = z3.Solver(); s.set('timeout', to * PATIENCE)
    if PATIENCE > 1: s.set('random_seed', PATIENCE)
    for f in fs: s.add(f)
    t = time.time(); r = s.check(); dt = time.time() - t
    STATS.queries += 1; STATS.time += dt
    if r == z3.unknown: UNKNOWN[0] += 1
    if os.environ.get('VF_SLOW') and dt > 1: sys.stderr.write(f'[slow {dt:.1f}s {r}]\n')
    return r, s
class Forked:
    """answer of a solver that ran in a forked process"""
    def __init__(self, m, why, fs): self.m = m; self.why = why; self.fs = fs
    def model(self): return self.m
    def reason_unknown(self): return self.why
    def to_smt2(self): s = z3.Solver(); s.add(*self.fs); return s.to_smt2()
def fork_solve(fs, to):
    import select as sel, pickle, signal
    r, w = os.pipe(); t = time.time(); pid = os.fork()
    if pid == 0:
        try:
            s = z3.Solver(); s.set('timeout', to * PATIENCE); s.add(*fs); x = s.check()
            os.write(w, pickle.dumps((str(x), str(s.model())[:3000] if x == z3.sat else None, s.reason_unknown() if x == z3.unknown else ''))[:60000])
        finally: os._exit(0)
    os.close(w); buf = b''; end = t + to * PATIENCE / 1000 * 1.5 + 2
    while True:
        ok, _, _ = sel.select([r], [], [], max(0, end - time.time()))
        if not ok: break
        x = os.read(r, 1 << 16)
        if not x: break
        buf += x
    os.close(r)
    try: os.kill(pid, signal.SIGKILL)
    except ProcessLookupError: pass
    os.waitpid(pid, 0)
    try: a, m, why = pickle.loads(buf)
    except Exception: a, m, why = 'unknown', None, 'timeout'
    STATS.queries += 1; STATS.time += time.time() - t
    if a == 'unknown': UNKNOWN[0] += 1
    return {'sat': z3.sat, 'unsat': z3.unsat}.get(a, z3.unknown), Forked(m, why, fs)
def relevant(pc, goal):
    """cone of influence of the goal over the path facts"""
    return [f for f, _ in pc]
def feasible(st, c=None):
    """False only if the path facts (quantifier-free part) contradict c"""
    if isinstance(c, bool) and not c: return False
    fs = [f for f, _ in st.pc if not has_quant(f)]
    if c is not None and not isinstance(c, bool): fs.append(c)
    r, _ = _solve(fs, QF_TO)
    return r != z3.unsat
def feasible_full(st, c=None, to=3000):
    if isinstance(c, bool) and not c: return False
    fs = [f for f, _ in st.pc]
    if c is not None and not isinstance(c, bool): fs.append(c)
    r, _ = _solve(fs, to)
    return r != z3.unsat
class Proof:
    __slots__ = ('ok', 'by', 'why', 'model', 'smt')
    def __init__(self, ok, by, why=None, model=None, smt=None): self.ok = ok; self.by = by; self.why = why; self.model = model; self.smt = smt
def prove(st, goal, to=None, extra=()):
    if isinstance(goal, bool):
        if goal: return Proof(True, 'simplifier')
        goal = z3.BoolVal(False)
    if z3.is_true(goal): return Proof(True, 'simplifier')
    gi = goal.get_id()
    for f, _ in st.pc:
        if f.get_id() == gi: return Proof(True, 'simplifier')
    full = [f for f, _ in st.pc] + list(extra)
    qf = [f for f in full if not has_quant(f)]
    ng = z3.Not(goal)
    if len(qf) < len(full) or True:
        r, s = _solve(qf + [ng], QF_TO)
        if r == z3.unsat: return Proof(True, 'z3')
        if len(qf) == len(full) and not has_quant(goal):
            if r == z3.sat: return Proof(False, 'z3', 'sat', s.model())
    r, s = _solve(full + [ng], to or FULL_TO)
    if r == z3.unsat: return Proof(True, 'z3')
    if r == z3.sat: return Proof(False, 'z3', 'sat', s.model())
    if to is None:
        c = cvc5_check(s.to_smt2(), 10)
        if c == 'unsat': return Proof(True, 'cvc5')
        STATS.unknown += 1
        return Proof(False, 'z3+cvc5', f'{s.reason_unknown()} / cvc5 {c}')
    return Proof(False, 'z3', 'unknown')
def strip_attrs(smt2):
    """drop quantifier annotations: the patterns z3 prints are not all accepted by cvc5"""
    smt2 = re.sub(r'(?m)^;.*$', '', smt2); out = []; st = [out]
    for t in re.findall(r'\(|\)|\|[^|]*\||"[^"]*"|[^\s()]+', smt2):
        if t == '(': l = []; st[-1].append(l); st.append(l)
        elif t == ')': st.pop()
        else: st[-1].append(t)
    def show(x):
        parts = []; work = [x]
        while work:
            y = work.pop()
            if isinstance(y, str): parts.append(y); continue
            if y and y[0] == '!': work.append(y[1]); continue
            parts.append('('); work.append(')'); work.extend(reversed(y))
        return ' '.join(parts)
    return '\n'.join(show(x) for x in out)
def cvc5_check(smt2, tl):
    import subprocess
    try: smt2 = strip_attrs(smt2)
    except Exception: pass
    STATS.cvc5 += 1; t = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={tl*1000}', '--full-saturate-quant', '-'], input=('(set-logic HO_ALL)\n' if 'lambda' in smt2 else '(set-logic ALL)\n') + smt2, capture_output=True, text=True, timeout=tl + 5)
        r = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'error'
    except Exception as e: r = 'error'
    STATS.time += time.time() - t
    return r
