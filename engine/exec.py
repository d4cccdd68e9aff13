"""Symbolic executor for the IR: produces every obligation of one function against its contract."""
from core import *
import core, json, traceback

def reached(st, ids, roots=(), ignore=(), dead=()):
    """objects that can be reached from these"""
    seen = set(ignore); work = list(ids)
    def add_v(v):
        if isinstance(v, (Ptr,)) and v.obj is not None: work.append(v.obj)
        elif isinstance(v, (Iter, LIter, Cont)): work.append(v.store)
        elif isinstance(v, Agg):
            for x in (v.v if isinstance(v.v, list) else []): add_v(x)
        elif isinstance(v, Rec):
            for x in v.f.values(): add_v(x)
        elif isinstance(v, Exc): add_v(v.ptr)
    for r in roots: add_v(r)
    while work:
        i = work.pop()
        if i in seen or i not in st.objs: continue
        seen.add(i); o = st.objs[i]
        for k, (v, _) in o.cells.items():
            if (i, k) not in dead: add_v(v)
        for f in o.fields.values():
            if isinstance(f.kind, tuple) and f.kind[0] == 'ptr' and f.kind[1] is not None: work.append(f.kind[1])
    return seen
class Outcome:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind = kind; self.st = st; self.val = val
class Exc:
    """thrown exception: type info symbol and object"""
    __slots__ = ('ti', 'ptr')
    def __init__(self, ti, ptr): self.ti = ti; self.ptr = ptr
class Frame:
    __slots__ = ('fn', 'args', 'vals', 'allocas', 'depth')
    def __init__(self, fn, args, depth): self.fn = fn; self.args = args; self.vals = {}; self.allocas = (); self.depth = depth
    def copy(self):
        f = Frame.__new__(Frame); f.fn = self.fn; f.args = self.args; f.vals = dict(self.vals); f.allocas = self.allocas; f.depth = self.depth; return f
class Obl:
    def __init__(self, fn, name, kind, line, proof, st=None, goal=None, path=''):
        self.fn = fn; self.name = name; self.kind = kind; self.line = line; self.ok = proof.ok; self.by = proof.by; self.why = proof.why
        self.model = str(proof.model)[:4000] if proof.model is not None else None
        self.goal = str(goal)[:600] if not proof.ok else None; self.path = path

WRAPS = {}
W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}
def width(ty):
    if isinstance(ty, str) and ty[0] == 'i': return int(ty[1:])
    return None

class Exec:
    def __init__(self, mod, handlers, fnname=''):
        self.mod = mod; self.funcs = mod['funcs']; self.decls = mod['decls']; self.globs = mod['globals']
        self.handlers = handlers; self.fnname = fnname
        self.obls = []; self.leaks = []; self.quiet = 0; self.lastfail = None; self.executed = set(); self.externals = set(); self.hints = []
        self.unsupported = []; self.maxdepth = 60; self.loopinfo = []; self.quiet_unsup = 0
        self.gobj = {}; self.npaths = 0; self.deadline = None; self.loopdepth = 0; self.stack = []
        for f in self.funcs.values():
            f['lh'] = {l['header']: l for l in f['loops']}
            for l in f['loops']: l['bset'] = set(l['blocks'])

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind='safety', line=None, msg=None):
        """record the obligation that goal holds here, then continue under it"""
        if isinstance(goal, bool) and goal:
            if not self.quiet: self.obls.append(Obl(self.fnname, name, kind, line, Proof(True, 'simplifier')))
            return True
        if self.quiet:
            if isinstance(goal, bool) and not goal: self.lastfail = (name, line); return False
            st.assume(goal); return True
        p = prove(st, goal)
        self.obls.append(Obl(self.fnname, name, kind, line, p, st, goal))
        if isinstance(goal, bool) and not goal: return False
        st.assume(goal)
        return True
    def fail(self, st, name, kind='safety', line=None):
        """an obligation that is false whenever this point is reached"""
        self.oblige(st, False, name, kind, line)

    # ------------------------------------------------------------ integers
    def norm_u(self, st, t, w):
        if isinstance(t, int): return t % (1 << w)
        return self._norm(st, t, 0, (1 << w) - 1, 1 << w)
    def norm_s(self, st, t, w):
        if isinstance(t, int):
            t %= 1 << w; return t - (1 << w) if t >= 1 << (w-1) else t
        return self._norm(st, t, -(1 << (w-1)), (1 << (w-1)) - 1, 1 << w)
    def _norm(self, st, t, lo, hi, M):
        a, b = bounds(t)
        if a is not None and b is not None and lo <= a and b <= hi: return t
        key = (t.get_id(), lo, hi)
        if key in st.memo: return st.memo[key][0]
        def ok(u): return self.quick(st, z3.And(u >= lo, u <= hi))
        r = None
        if ok(t): r = t
        else:
            cand = []
            if a is None or a < lo: cand.append(simp(t + M))
            if b is None or b > hi: cand.append(simp(t - M))
            # If-terms: normalise both branches
            if t.decl().kind() == z3.Z3_OP_ITE:
                r = Ite(t.arg(0), self._norm(st, simp(t.arg(1)), lo, hi, M) if not z3.is_int_value(t.arg(1)) else self._c(t.arg(1).as_long(), lo, M), self._norm(st, simp(t.arg(2)), lo, hi, M) if not z3.is_int_value(t.arg(2)) else self._c(t.arg(2).as_long(), lo, M))
            else:
                for u in cand:
                    if isinstance(u, int) or ok(u): r = u; break
        if r is None:
            if a is not None and b is not None and b - a < M and a >= lo - M and b <= hi + M:
                # at most one wrap either way
                r = t
                if b > hi: r = z3.If(t > hi, t - M, r)
                if a < lo: r = z3.If(t < lo, t + M, r)
            else:
                r = fresh_int('wrap', lo, hi); q = fresh_int('q')
                WRAPS[r.decl().name()] = t; st.assume(z3.And(r >= lo, r <= hi, t == r + q * M))
        st.memo[key] = (r, t)
        return r
    def norm_i(self, st, t, w):
        """an index: addresses are taken modulo 2^64, so an unsigned index that may exceed the signed range stands
        for itself (the bounds obligation of the access still applies to it)"""
        if isinstance(t, int) or w != 64: return self.norm_s(st, t, w)
        a, b = bounds(t); M = 1 << 64
        if a is None or b is None or a < 0 or b >= M or b < M // 2: return self.norm_s(st, t, w)
        if self.quick(st, t < M // 2): return t
        if self.quick(st, t >= M // 2): return simp(t - M)
        return t
    @staticmethod
    def _c(v, lo, M):
        v %= M
        return v - M if lo < 0 and v >= M // 2 else v
    def quick(self, st, g):
        g = simp(g)
        if isinstance(g, bool): return g
        fs = [f for f, _ in st.pc]
        qf = [f for f in fs if not has_quant(f)]
        r, _ = core._solve(qf + [z3.Not(g)], core.QF_TO)
        if r == z3.unsat: return True
        if len(qf) < len(fs):
            r, _ = core._solve(fs + [z3.Not(g)], 1000)
            return r == z3.unsat
        return False
    def known(self, st, t, lo, hi):
        """assume the type range of a value read from memory"""
        if isinstance(t, int): return
        a, b = bounds(t)
        if a is None or b is None or a < lo or b > hi: st.assume(z3.And(t >= lo, t <= hi))
        elif t.decl().kind() == z3.Z3_OP_SELECT or t.num_args() == 0: st.assume(z3.And(t >= lo, t <= hi))

    # ------------------------------------------------------------ memory
    def obj(self, st, p, line, what):
        """object a pointer refers to, with the validity obligations; None if the path ends"""
        if isinstance(p, Undef): 
            if p is HAVOC: raise Unsupported('pointer left over from an earlier loop iteration')
            self.fail(st, f'{what} through an uninitialised pointer', 'memory', line); return None
        if isinstance(p, Iter): raise Unsupported(f'{what} of node internals')
        if not isinstance(p, Ptr): raise Unsupported(f'{what} through {type(p).__name__}')
        if p.obj is None: self.fail(st, f'{what} through null pointer', 'memory', line); return None
        o = st.objs.get(p.obj)
        if o is None or not o.alive:
            self.fail(st, f'{what} of released storage', 'memory', line); return None
        if p.ep is not None and p.ep is not o.ep:
            if ('reserved', p.obj) in st.ghost: raise Unsupported('reference kept while its sequence grows within reserved storage')
            self.fail(st, f'{what} through a reference or iterator invalidated by a change of the container', 'memory', line); return None
        return o
    def fix(self, st, p):
        """normalise the constant offset of an array pointer"""
        o = st.objs.get(p.obj)
        if o is None or o.mode == 'S' or o.mode == 'N' or not o.esz: return p
        off = p.off - o.hdr
        if 0 <= off < o.esz: return p
        if o.hdr and isinstance(p.idx, int) and 0 <= p.idx * o.esz + p.off < o.hdr: return Ptr(p.obj, 0, p.idx * o.esz + p.off, p.ep)
        q, r = divmod(off, o.esz)
        return Ptr(p.obj, add(p.idx, q), r + o.hdr, p.ep)
    def set_esz(self, st, oid, esz):
        o = st.objs[oid]
        if o.esz is not None: return
        o = st.w(oid); o.esz = esz
        if o.n is None and o.bytes is not None:
            b = sub(o.bytes, o.hdr) if o.hdr else o.bytes
            n = divexact(b, esz)
            if n is None:
                n = fresh_int('len', 0, (1 << 63)); st.assume(z3.And(zi(esz) * n <= zi(b), zi(b) < zi(esz) * n + esz))
            o.n = n
    def toarray(self, st, oid, esz):
        """view a structure allocation as an array of equal elements"""
        o = st.objs[oid]
        if o.size is None or o.size % esz: raise Unsupported(f'variable offset into object of {o.size} bytes')
        o = st.w(oid); o.mode = 'A'; o.esz = esz; o.n = o.size // esz; o.hdr = 0
        cells = o.cells; o.cells = {}
        for off, (v, sz) in sorted(cells.items(), key=lambda x: x[0]):
            i, r = divmod(off, esz)
            self._astore(st, o, i, r, v, sz)
    def kind_of(self, v, size):
        if isinstance(v, Op): return 'op:' + v.kind
        if isinstance(v, (int, z3.ArithRef)) and not (isinstance(v, z3.ExprRef) and v.sort() == z3.RealSort()): return f'i{size*8}'
        if isinstance(v, Flt): return 'flt'
        if isinstance(v, Ptr): return ('ptr', v.obj, v.off, v.ep)
        raise Unsupported(f'array element of kind {type(v).__name__}')
    def tocell(self, st, v, size):
        if isinstance(v, Op): return zi(v.t)
        if isinstance(v, Flt):
            if v.nan is not False: raise Unsupported('array element that may not be a number')
            return v.t
        if isinstance(v, Ptr): return zi(v.idx if v.idx is not None else 0)
        return zi(self.norm_u(st, v, size * 8))
    def fromcell(self, st, kind, t, size):
        if isinstance(kind, tuple):
            if kind[0] == 'ptr':
                if kind[1] is None: return NULL
                o = st.objs.get(kind[1])
                return Ptr(kind[1], t if o is not None and o.mode != 'S' else None, kind[2], kind[3])
            if kind[0] == 'custom': return kind[1](st, t)
        if kind.startswith('op:'): return Op(kind[3:], t)
        if kind == 'flt': return Flt(t)
        w = int(kind[1:]); self.known(st, t, 0, (1 << w) - 1)
        return t
    def field(self, st, o, off, v, size, name=''):
        """field descriptor for an offset, created on first use"""
        f = o.fields.get(off)
        k = self.kind_of(v, size) if v is not None else None
        if f is None:
            if k is None: return None
            lo, hi = (0, (1 << int(k[1:])) - 1) if isinstance(k, str) and k[0] == 'i' else (None, None)
            f = Field(k, fresh_arr(f'{o.name or o.kind}.f{off}', 'real' if k == 'flt' else 'int', lo, hi), size); o.fields[off] = f
            if o.mode == 'A' and o.kind != 'param' and off not in o.live: o.live[off] = z3.K(z3.IntSort(), z3.BoolVal(False))
        elif k is not None and f.kind != k:
            if isinstance(k, tuple) and isinstance(f.kind, tuple) and (k[1] is None or f.kind[1] is None): raise Unsupported('null pointers mixed with pointers in an array')
            raise Unsupported(f'array field holds both {f.kind} and {k}')
        return f
    def _astore(self, st, o, i, off, v, size):
        f = self.field(st, o, off, v, size)
        o.fields[off] = Field(f.kind, z3.Store(f.arr, zi(i), self.tocell(st, v, size)), f.size)
        if off in o.live: o.live[off] = z3.Store(o.live[off], zi(i), z3.BoolVal(True))
    def inrange(self, st, o, p, line, what):
        """bounds obligation for an access to an indexed object"""
        if o.mode == 'N': return self.oblige(st, select(o.member, p.idx), f'{what}: node must still be in the container', 'memory', line)
        if o.esz is None and o.n is None: raise Unsupported('access to storage of unknown element size')
        return self.oblige(st, And(le_t(0, p.idx), lt_t(p.idx, o.n)), f'{what} within bounds', 'memory', line)
    def load(self, st, p, ty, sz, line):
        o = self.obj(st, p, line, 'read')
        if o is None: return None
        if o.mode == 'S':
            c = o.cells.get(p.off)
            if c is not None and c[1] == sz: return self.conv(st, c[0], ty, line)
            return self.conv(st, self.load_part(st, o, p.off, ty, sz, line), ty, line)
        if o.esz is None: self.set_esz(st, p.obj, sz)
        p = self.fix(st, p); o = st.objs[p.obj]
        if o.hdr and isinstance(p.idx, int) and p.idx == 0 and p.off < o.hdr:
            c = o.cells.get(p.off)
            if c is None or c[1] != sz: raise Unsupported('read of the header of an array')
            return self.conv(st, c[0], ty, line)
        if not self.inrange(st, o, p, line, 'read'): return None
        off = p.off
        if o.mode == 'N' and off == 0: return self.fromcell(st, o.etype, p.idx, sz)
        if off in o.live and not self.oblige(st, select(o.live[off], p.idx), 'read of an initialised element', 'memory', line): return None
        f = o.fields.get(off)
        if f is None:
            if o.mode == 'A' and o.kind != 'param': self.fail(st, 'read of an uninitialised element', 'memory', line); return None
            raise Unsupported(f'read of unknown field at offset {off} of {o.name}')
        if f.size != sz: raise Unsupported('partial element read')
        return self.conv(st, self.fromcell(st, f.kind, select(f.arr, p.idx), sz), ty, line)
    def conv(self, st, v, ty, line):
        if isinstance(v, Undef):
            if v is HAVOC: raise Unsupported('variable left over from an earlier loop iteration')
            return v
        if isinstance(v, Ptr) and v.obj is None and ty == 'i64': return 0
        return v
    def load_part(self, st, o, off, ty, sz, line):
        if o.kind == 'streamvt': return 0
        if -1000 in o.cells and ty == 'ptr' and off in (0, 16):
            if 'streamvt' not in self.gobj or self.gobj['streamvt'] not in st.objs:
                v = new_obj(st, 'S', 'streamvt', 'stream vtable')
                if 'streamvt' in self.gobj:
                    del st.objs[v.id]; v.id = self.gobj['streamvt']; st.objs[v.id] = v
                self.gobj['streamvt'] = v.id
            return Ptr(self.gobj['streamvt'], None, 0)
        if o.kind == 'excvt': return Rec('fnptr', call=self.what) if off == 16 else NULL
        if ty == 'ptr' and off in o.cells and isinstance(o.cells[off][0], Rec) and o.cells[off][0].kind == 'exc':
            # a standard exception: its table of virtual functions has only the message left to call
            if 'excvt' not in self.gobj: self.gobj['excvt'] = new_obj(st, 'S', 'excvt', 'exception vtable').id
            elif self.gobj['excvt'] not in st.objs: v = new_obj(st, 'S', 'excvt', 'exception vtable'); del st.objs[v.id]; v.id = self.gobj['excvt']; st.objs[v.id] = v
            return Ptr(self.gobj['excvt'], None, 0)
        # zero fill
        for b, (v, n) in o.cells.items():
            if isinstance(v, tuple) and v[0] == 'fill' and b <= off and off + sz <= b + n:
                return NULL if ty == 'ptr' else Flt(z3.RealVal(0)) if ty in ('double', 'float') else 0
        if o.bytes is not None and o.kind == 'global' and isinstance(o.bytes, list):
            if off + sz <= len(o.bytes): return int.from_bytes(bytes(o.bytes[off:off+sz]), 'little')
        if off in o.cells or any(b < off + sz and off < b + n for b, (v, n) in o.cells.items()):
            # little-endian composition / extraction of constants
            c = o.cells.get(off)
            if c is not None and isinstance(c[0], (int, z3.ArithRef)) and c[1] > sz:
                return simp(zi(self.norm_u(st, c[0], c[1]*8)) % (1 << (sz*8)))
            parts = []; q = off
            while q < off + sz:
                c = o.cells.get(q)
                if c is None or not isinstance(c[0], (int, z3.ArithRef)): break
                parts.append((q, c)); q += c[1]
            if q == off + sz:
                r = 0
                for b, (v, n) in parts: r = add(r, mul(self.norm_u(st, v, n*8), 1 << (8*(b-off))))
                return r
            raise Unsupported(f'unaligned read of object {o.name} at {off}')
        if o.const or o.kind == 'ext' or o.kind == 'global' and o.how == 'extern': raise Unsupported(f'read of unknown global {o.name}')
        return Undef(f'uninitialised variable {o.name}')
    def clear(self, o, off, sz):
        for b in [b for b, (v, n) in o.cells.items() if b < off + sz and off < b + n]:
            v, n = o.cells.pop(b)
            if isinstance(v, tuple) and v[0] == 'fill':
                if b < off: o.cells[b] = (v, off - b)
                if off + sz < b + n: o.cells[off + sz] = (v, b + n - off - sz)
    def store(self, st, p, v, sz, line):
        o = self.obj(st, p, line, 'write')
        if o is None: return False
        if o.const: self.fail(st, 'write to a constant object', 'memory', line); return False
        if o.mode == 'S':
            if o.size is not None and not (0 <= p.off and p.off + sz <= o.size):
                self.fail(st, 'write within bounds', 'memory', line); return False
            o = st.w(p.obj); c = o.cells.get(p.off)
            if c is None or c[1] != sz: self.clear(o, p.off, sz)
            o.cells[p.off] = (v, sz)
            return True
        if o.bytes is not None and o.n is None and o.esz is None and sz == 8 and o.how == 'new[]' and not o.hdr and p.off == 0 and isinstance(v, (int, z3.ArithRef)) and divexact(sub(o.bytes, 8), 24) is not None:
            # array cookie: element count stored before the elements
            o = st.w(p.obj); o.hdr = 8; o.cells[0] = (v, 8); return True
        if o.hdr and p.off < o.hdr:
            o = st.w(p.obj); o.cells[p.off] = (v, sz); return True
        if o.esz is None: self.set_esz(st, p.obj, sz)
        p = self.fix(st, p); o = st.objs[p.obj]
        if not self.inrange(st, o, p, line, 'write'): return False
        if isinstance(v, Undef): raise Unsupported('store of uninitialised value into an array')
        o = st.w(p.obj)
        self._astore(st, o, p.idx, p.off, v, sz)
        return True
    def copyobj(self, st, dst, src, n, line):
        """byte copy of n (constant) bytes"""
        so = self.obj(st, src, line, 'read'); do = self.obj(st, dst, line, 'write')
        if so is None or do is None: return False
        vals = self.cells_at(st, src, n, line)
        if vals is None: return False
        if do.mode == 'S':
            d = st.w(dst.obj); self.clear(d, dst.off, n)
        for off, (v, sz) in vals.items():
            if isinstance(v, tuple):
                d.cells[dst.off + off] = (v, sz); continue
            if not self.store(st, Ptr(dst.obj, dst.idx, dst.off + off, dst.ep), v, sz, line): return False
        return True
    def cells_at(self, st, src, n, line):
        """cells of the n-byte object at src, by offset (n None: the whole element or object)"""
        so = self.obj(st, src, line, 'read')
        if so is None: return None
        if so.mode == 'S':
            out = {}
            for b, (v, sz) in so.cells.items():
                if b >= src.off and (n is None or b + sz <= src.off + n): out[b - src.off] = (v, sz)
            return out
        src = self.fix(st, src)
        if not self.inrange(st, so, src, line, 'read'): return None
        out = {}
        if so.mode == 'N' and src.off == 0: out[0] = (self.fromcell(st, so.etype, src.idx, 8), 8)
        for off, f in so.fields.items():
            if off >= src.off and (n is None or off + f.size <= src.off + n):
                if off in so.live and not self.oblige(st, select(so.live[off], src.idx), 'read of an initialised element', 'memory', line): return None
                out[off - src.off] = (self.fromcell(st, f.kind, select(f.arr, src.idx), f.size), f.size)
        return out
    def bulkcopy(self, st, dst, src, nbytes, line):
        """copy of a variable number of array elements (memcpy/memmove)"""
        if dst.obj is None or src.obj is None:
            self.oblige(st, eq_t(nbytes, 0), 'copy through a null pointer', 'memory', line); return True
        so = self.obj(st, src, line, 'read'); do = self.obj(st, dst, line, 'write')
        if so is None or do is None: return False
        if so.mode == 'S' or do.mode == 'S': raise Unsupported('variable-size copy of a structure')
        esz = so.esz or do.esz
        if esz is None: raise Unsupported('variable-size copy with unknown element size')
        self.set_esz(st, dst.obj, esz); self.set_esz(st, src.obj, esz)
        so = st.objs[src.obj]; do = st.w(dst.obj); n = divexact(nbytes, esz)
        if n is None or so.esz != do.esz or src.off or dst.off: raise Unsupported('copy of partial elements')
        self.oblige(st, Or(eq_t(n, 0), And(le_t(0, src.idx), le_t(add(src.idx, n), so.n))), 'copy source within bounds', 'memory', line)
        self.oblige(st, Or(eq_t(n, 0), And(le_t(0, dst.idx), le_t(add(dst.idx, n), do.n))), 'copy destination within bounds', 'memory', line)
        q = z3.Int('q!b')
        for off, f in so.fields.items():
            if off in so.live:
                self.oblige(st, z3.ForAll([q], z3.Implies(z3.And(zi(src.idx) <= q, q < zi(add(src.idx, n))), z3.Select(so.live[off], q))), 'copy source initialised', 'memory', line)
            df = do.fields.get(off)
            lo, hi = arrbounds(f.arr)
            na = fresh_arr('copied', 'real' if f.kind == 'flt' else 'int', lo, hi)
            inn = z3.And(zi(dst.idx) <= q, q < zi(add(dst.idx, n)))
            old = df.arr if df is not None else fresh_arr('raw')
            st.assume(z3.ForAll([q], z3.Select(na, q) == z3.If(inn, z3.Select(f.arr, q - zi(dst.idx) + zi(src.idx)), z3.Select(old, q)), patterns=[z3.Select(na, q)]))
            do.fields[off] = Field(f.kind, na, f.size)
            if do.mode == 'A' and do.kind != 'param':
                ol = do.live.get(off, z3.K(z3.IntSort(), z3.BoolVal(False))); nl = fresh_arr('live', 'bool')
                st.assume(z3.ForAll([q], z3.Select(nl, q) == z3.Or(inn, z3.Select(ol, q)), patterns=[z3.Select(nl, q)]))
                do.live[off] = nl
        return True

    # -------------------------------------------------- opaque element objects
    def op_get(self, st, p, kind, line):
        """value of the opaque object at p"""
        o = self.obj(st, p, line, 'read')
        if o is None: return None
        if o.mode == 'S':
            c = o.cells.get(p.off)
            if c is None or not isinstance(c[0], Op):
                if c is not None and isinstance(c[0], Undef): raise Unsupported('opaque object left over from an earlier iteration')
                self.fail(st, 'use of an element that is not alive', 'memory', line); return None
            return c[0].t
        if o.esz is None: self.set_esz(st, p.obj, SIZES['vf::' + kind])
        p = self.fix(st, p); o = st.objs[p.obj]
        if not self.inrange(st, o, p, line, 'element access'): return None
        if o.mode == 'N' and p.off == 0:
            if o.etype != 'op:' + kind: raise Unsupported(f'key kind {o.etype} read as {kind}')
            return p.idx
        f = o.fields.get(p.off)
        if p.off in o.live and not self.oblige(st, select(o.live[p.off], p.idx), 'use of a live element', 'memory', line): return None
        if f is None:
            if o.mode == 'A': self.fail(st, 'use of an element that was never constructed', 'memory', line); return None
            raise Unsupported('unknown element field')
        if f.kind != 'op:' + kind: raise Unsupported(f'element kind {f.kind} read as {kind}')
        return select(f.arr, p.idx)
    def op_put(self, st, p, kind, t, line, construct):
        o = self.obj(st, p, line, 'write')
        if o is None: return False
        sz = SIZES['vf::' + kind]; v = Op(kind, t)
        if o.const: self.fail(st, 'write to a constant object', 'memory', line); return False
        if o.mode == 'S':
            c = o.cells.get(p.off); isop = c is not None and isinstance(c[0], Op)
            if construct and isop: self.fail(st, 'construction over a live element', 'memory', line); return False
            if not construct and not isop: self.fail(st, 'assignment to an element that is not alive', 'memory', line); return False
            if o.size is not None and p.off + sz > o.size: self.fail(st, 'construction within bounds', 'memory', line); return False
            o = st.w(p.obj); self.clear(o, p.off, sz); o.cells[p.off] = (v, sz); return True
        if o.esz is None: self.set_esz(st, p.obj, sz)
        p = self.fix(st, p); o = st.objs[p.obj]
        if not self.inrange(st, o, p, line, 'element construction' if construct else 'element assignment'): return False
        o = st.w(p.obj)
        if o.mode == 'A' and o.kind != 'param': self.field(st, o, p.off, v, sz)
        if p.off in o.live:
            l = select(o.live[p.off], p.idx)
            if construct:
                if not self.oblige(st, Not(l), 'construction only over raw storage', 'memory', line): return False
            elif not self.oblige(st, l, 'assignment only to a live element', 'memory', line): return False
            o = st.w(p.obj)
        elif construct and o.kind == 'param': self.fail(st, 'construction over a live element', 'memory', line); return False
        self._astore(st, o, p.idx, p.off, v, sz)
        return True
    def op_kill(self, st, p, kind, line):
        o = self.obj(st, p, line, 'destruction')
        if o is None: return False
        if o.mode == 'S':
            c = o.cells.get(p.off)
            if c is not None and c[0] is HAVOC: return True
            if c is None or not isinstance(c[0], Op): self.fail(st, 'destruction of an element that is not alive', 'memory', line); return False
            o = st.w(p.obj); del o.cells[p.off]; return True
        if o.esz is None: self.set_esz(st, p.obj, SIZES['vf::' + kind])
        p = self.fix(st, p); o = st.objs[p.obj]
        if not self.inrange(st, o, p, line, 'element destruction'): return False
        if p.off not in o.live:
            if o.mode == 'A' and o.kind != 'param': self.fail(st, 'destruction of an element that was never constructed', 'memory', line); return False
            raise Unsupported('destruction of a container element')
        if not self.oblige(st, select(o.live[p.off], p.idx), 'destruction only of a live element', 'memory', line): return False
        o = st.w(p.obj); o.live[p.off] = z3.Store(o.live[p.off], zi(p.idx), z3.BoolVal(False))
        return True

    # ------------------------------------------------------------ allocation
    def alloc(self, st, size, how, line):
        """storage of size bytes; returns pointer (size known not to exceed the addressable range)"""
        if isinstance(size, int):
            o = new_obj(st, 'S', 'heap'); o.size = size
        else:
            o = new_obj(st, 'A', 'heap'); o.bytes = size
        o.how = how
        return Ptr(o.id, 0 if o.mode == 'A' else None, 0)
    def free(self, st, p, how, line):
        if isinstance(p, Ptr) and p.obj is None: return True
        if isinstance(p, Rec) and p.kind in ('cstr', 'frame'): self.fail(st, 'release of storage that was not obtained by allocation', 'memory', line); return False
        o = self.obj(st, p, line, 'release')
        if o is None: return False
        if o.kind != 'heap' or (o.mode == 'A' and not (isinstance(p.idx, int) and p.idx == 0 or self.quick(st, zi(p.idx) == 0))) or p.off != 0:
            self.fail(st, 'release of storage that was not obtained by allocation', 'memory', line); return False
        if o.how is not None and o.how != how: self.oblige(st, False, f'storage obtained with {o.how} released with {how}', 'memory', line)
        if o.mode == 'A':
            q = z3.Int('q!f')
            for off, l in o.live.items():
                if isinstance(o.fields[off].kind, str) and o.fields[off].kind.startswith('op:'):
                    self.oblige(st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(o.n)), z3.Not(z3.Select(l, q)))), 'all elements destroyed before their storage is released', 'memory', line)
        else:
            if any(isinstance(v, Op) for v, _ in o.cells.values()): self.fail(st, 'all elements destroyed before their storage is released', 'memory', line)
        o = st.w(p.obj); o.alive = False
        return True

    # ------------------------------------------------------------ operands
    def val(self, st, fr, v):
        t = v[0]
        if t == 'c': return (v[2] != '0') if v[1] == 1 else int(v[2])
        if t == 'l': return fr.vals[v[1]]
        if t == 'a': return fr.args[v[1]]
        if t == 'g': return self.gptr(st, v[1], v[2])
        if t == 'n': return NULL
        if t == 'u': return UNDEF
        if t == 'f': return Flt(z3.RealVal(str(Fraction(v[1])))) if not isinstance(v[1], str) else Flt(fresh_real('nonfinite'))
        if t == 'z': return Agg({})
        if t == 'ca': return Agg([self.val(st, fr, x) for x in v[2]])
        if t == 'x': return None
        raise Unsupported(f'constant {v[:2]}')
    def gptr(self, st, name, off):
        if name in self.funcs or name in self.decls: return Fn(name)
        oid = self.gobj.get(name)
        if oid is None or oid not in st.objs:
            g = self.globs.get(name, {})
            o = new_obj(st, 'S', 'global', name) if oid is None else None
            if oid is not None:
                o = Obj(oid, 'S', 'global', name); o.owner = st.tok; st.objs[oid] = o
            self.gobj[name] = o.id
            o.const = bool(g.get('const')) 
            if name in ('_ZSt4cerr', '_ZSt4cout', '_ZSt4clog'): o.cells[-1000] = (Rec('stream', text=Text(), bad=False, alpha=False, fmt=0), 0)
            elif name == '__libc_single_threaded': o.cells[0] = (0, 1)
            elif g and 'init' not in g and 'bytes' not in g: o.how = 'extern'
            if 'bytes' in g: o.bytes = g['bytes']; o.size = len(g['bytes'])
            ty = g.get('ty')
            if isinstance(ty, dict) and 'init' in g: self.ginit(st, o, 0, g['init'], ty)
            elif 'init' in g:
                i = g['init']
                if i[0] == 'c': o.cells[0] = (int(i[2]), int(ty[1:]) // 8 if width(ty) else 8)
                elif i[0] == 'n': o.cells[0] = (NULL, 8)
            if isinstance(ty, dict) and ty.get('size'): o.size = ty['size']
        return Ptr(self.gobj[name], None, off)
    def ginit(self, st, o, off, v, ty):
        if v[0] == 'z' and isinstance(ty, dict) and ty.get('size'): o.cells[off] = (('fill', 0), ty['size'])
        elif v[0] == 'ca' and isinstance(v[1], dict) and 'elt' in v[1]:
            for i, e in enumerate(v[2]): self.ginit(st, o, off + i * v[1]['esize'], e, v[1]['elt'])
        elif v[0] == 'c': o.cells[off] = (int(v[2]), max(1, v[1] // 8))
        elif v[0] == 'f': o.cells[off] = (self.val(st, None, v), 8)
        elif v[0] == 'n': o.cells[off] = (NULL, 8)
        elif v[0] == 'g': o.cells[off] = (self.gptr(st, v[1], v[2]), 8)
        elif v[0] == 'ce' and v[1] == 'inttoptr' and v[2][0] == 'c': o.cells[off] = (int(v[2][2]), 8)
        elif v[0] == 'ca':
            fl = v[1].get('fields', [])
            def leaves(x):
                if x[0] == 'ca': return [y for e in x[2] for y in leaves(e)]
                if x[0] == 'z' and isinstance(x[1], dict): return [['c', 8 * f[2], '0'] for f in x[1].get('fields', [])]
                return [x]
            vs = leaves(v)
            if len(fl) == len(vs):
                for (fo, ft, fs), e in zip(fl, vs): self.ginit(st, o, off + fo, e, ft)
    def cstr(self, st, p):
        """constant C string at p"""
        if not isinstance(p, Ptr) or p.obj is None: return None
        o = st.objs.get(p.obj)
        if o is not None and o.kind == 'global' and o.const and 0 in o.cells and o.cells[0][0] == ('fill', 0) and 0 <= p.off < o.cells[0][1]: return ''
        if o is None or not isinstance(o.bytes, list) or o.kind != 'global': return None
        b = bytes(o.bytes[p.off:]); return b.split(b'\0')[0].decode('latin1')

    # ------------------------------------------------------------ instructions
    def icmp(self, st, pred, a, b, w, line):
        if isinstance(a, Undef) or isinstance(b, Undef):
            if a is HAVOC or b is HAVOC: raise Unsupported('comparison of a leftover value')
            self.fail(st, 'comparison of an uninitialised value', 'memory', line); return None
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            a = zb(a) if isinstance(a, (bool, z3.BoolRef)) else zb(a != 0); b = zb(b) if isinstance(b, (bool, z3.BoolRef)) else zb(b != 0)
            if pred == 'eq': return simp(a == b)
            if pred == 'ne': return simp(z3.Xor(a, b))
            a, b = Ite(simp(a), 1, 0), Ite(simp(b), 1, 0)
            if pred[0] == 's': a, b = sub(0, a), sub(0, b); pred = 'u' + pred[1:]; 
            return {'ult': lt_t(a, b), 'ule': le_t(a, b), 'ugt': lt_t(b, a), 'uge': le_t(b, a)}[pred]
        if isinstance(a, (Iter, LIter)) or isinstance(b, (Iter, LIter)): return self.cmp_iter(st, pred, a, b, line)
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return e if pred == 'eq' else not e
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.cmp_ptr(st, pred, a, b, line)
        if isinstance(a, Rec) or isinstance(b, Rec): raise Unsupported('comparison of model records')
        if pred in ('eq', 'ne'):
            # equal modulo 2^w; prefer the representation both sides share
            a1, b1 = self.norm_u(st, a, w), self.norm_u(st, b, w)
            e = eq_t(a1, b1)
            return e if pred == 'eq' else Not(e)
        nf = self.norm_s if pred[0] == 's' else self.norm_u
        a, b = nf(st, a, w), nf(st, b, w)
        return {'lt': lt_t(a, b), 'le': le_t(a, b), 'gt': lt_t(b, a), 'ge': le_t(b, a)}[pred[1:]]
    def cmp_iter(self, st, pred, a, b, line):
        if type(a) is not type(b):
            raise Unsupported('comparison of unrelated iterators')
        if a.store != b.store:
            self.fail(st, 'comparison of iterators of different containers', 'memory', line); return None
        ka, kb = (a.key, b.key) if isinstance(a, Iter) else (a.pos, b.pos)
        e = Or(And(a.isend, b.isend), And(Not(a.isend), Not(b.isend), eq_t(ka, kb)))
        return e if pred == 'eq' else Not(e)
    def cmp_ptr(self, st, pred, a, b, line):
        if isinstance(a, int) and a == 0: a = NULL
        if isinstance(b, int) and b == 0: b = NULL
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Rec) and x.kind in ('cstr', 'frame') and isinstance(y, Ptr) and y.obj is None and pred in ('eq', 'ne'): return pred == 'ne'
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported(f'pointer comparison {a} {b}')
        if a.obj == b.obj:
            if a.obj is None: e = True; r = {'eq': True, 'ne': False, 'ult': False, 'ule': True, 'ugt': False, 'uge': True}[pred]; return r
            a, b = self.fix(st, a), self.fix(st, b)
            if a.ep is not None and b.ep is not None and a.ep is not b.ep:
                if ('reserved', a.obj) in st.ghost: raise Unsupported('iterators kept while a sequence grows within reserved storage')
                self.fail(st, 'comparison with an invalidated iterator', 'memory', line); return None
            ai, bi = (a.idx if a.idx is not None else 0), (b.idx if b.idx is not None else 0)
            if pred in ('eq', 'ne'):
                e = And(eq_t(ai, bi), a.off == b.off)
                return e if pred == 'eq' else Not(e)
            if a.off == b.off: return {'lt': lt_t(ai, bi), 'le': le_t(ai, bi), 'gt': lt_t(bi, ai), 'ge': le_t(bi, ai)}[pred[1:]]
            if same(ai, bi): return {'lt': a.off < b.off, 'le': a.off <= b.off, 'gt': a.off > b.off, 'ge': a.off >= b.off}[pred[1:]]
            raise Unsupported('pointer comparison inside elements')
        if pred == 'eq': return False
        if pred == 'ne': return True
        # std::less on pointers of different objects: some total order
        if pred in ('ult', 'ule', 'ugt', 'uge'): return fresh_bool('ptrorder')
        raise Unsupported('relational comparison of unrelated pointers')
    def gep(self, st, fr, ins):
        p = self.val(st, fr, ins['p']); off = ins['off']; line = ins.get('line')
        terms = [(self.val(st, fr, v), w, s) for v, w, s in ins['terms']]
        terms = [(self.norm_i(st, v, w) if not isinstance(v, (Ptr, Undef)) else v, w, s) for v, w, s in terms]
        for v, w, s in terms:
            if isinstance(v, Undef): self.fail(st, 'pointer arithmetic with an uninitialised value', 'memory', line); return None
        for v, w, s in [t for t in terms if isinstance(t[0], int)]: off += v * s
        terms = [t for t in terms if not isinstance(t[0], int)]
        return self.padd(st, p, off, terms, line, ins.get('sz'))
    def padd(self, st, p, off, terms, line, sz=None):
        if isinstance(p, Undef):
            if p is HAVOC: raise Unsupported('pointer left over from an earlier iteration')
            return p
        if isinstance(p, (Iter, LIter)):
            if not terms and off == 0: return p
            raise Unsupported('pointer arithmetic on a node')
        if isinstance(p, Fn): raise Unsupported('arithmetic on function pointer')
        if not isinstance(p, Ptr): raise Unsupported(f'pointer arithmetic on {type(p).__name__}')
        if p.obj is None:
            g = And(off == 0, *[eq_t(v, 0) for v, _, _ in terms])
            if g is True: return NULL
            if not terms:      # member of null object: only an error when accessed
                return NULL if off == 0 else Ptr(None, None, off)
            if not self.oblige(st, g, 'no arithmetic on a null pointer', 'memory', line): return None
            return NULL
        o = st.objs.get(p.obj)
        if o is None: return Ptr(p.obj, p.idx, p.off + off, p.ep)
        if o.mode == 'S':
            if not terms: return Ptr(p.obj, None, p.off + off, p.ep)
            if len(terms) > 1: raise Unsupported('two-dimensional indexing')
            if o.kind in ('heap', 'stack', 'global', 'param') and o.size:
                self.toarray(st, p.obj, terms[0][2]); o = st.objs[p.obj]
                p = self.fix(st, Ptr(p.obj, 0, p.off, p.ep))
            else: raise Unsupported(f'variable offset into {o.name or o.kind}')
        if o.hdr == 0 and o.esz is None and o.how == 'new[]' and off == 8 and not terms and 0 in o.cells: pass
        idx, o2 = p.idx, p.off + off
        for v, w, s in terms:
            if o.mode == 'N': raise Unsupported('indexing into a node')
            if o.esz is None: self.set_esz(st, p.obj, s); o = st.objs[p.obj]
            if s == o.esz: idx = add(idx, v)
            else:
                d = divexact(mul(v, s), o.esz)
                if d is None: raise Unsupported(f'stride {s} in storage with element size {o.esz}')
                idx = add(idx, d)
        if o.mode in ('A', 'V') and o.esz is None and sz and off and not terms and not o.hdr: self.set_esz(st, p.obj, sz)
        return self.fix(st, Ptr(p.obj, idx, o2, p.ep))
    def binop(self, st, op, a, b, ty, ins):
        line = ins.get('line')
        if isinstance(a, Undef) or isinstance(b, Undef):
            if a is HAVOC or b is HAVOC: raise Unsupported('arithmetic on a leftover value')
            self.fail(st, 'arithmetic on an uninitialised value', 'memory', line); return None
        if ty in ('double', 'float'):
            x, y = a.t, b.t
            nan = Or(a.nan, b.nan) if a.nan is not False or b.nan is not False else False
            if op == 'fdiv': return Flt(z3.simplify(x / y), nan)
            return Flt(z3.simplify({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y}[op]()), nan)
        w = width(ty)
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)) or w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(zb(a), zb(b)))
            raise Unsupported('bool ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr): return self.pdiff(st, a, b, line)
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, int): return self.padd(st, a, self.norm_s(st, b, 64), [], line)
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int): return self.padd(st, a, -self.norm_s(st, b, 64), [], line)
            raise Unsupported(f'integer arithmetic {op} on pointers')
        if op in ('add', 'sub', 'mul'):
            if op == 'mul' and not isinstance(a, int) and not isinstance(b, int):
                a, b = self.norm_s(st, a, w) if ins.get('nsw') else self.norm_u(st, a, w), self.norm_s(st, b, w) if ins.get('nsw') else self.norm_u(st, b, w)
                r = simp(zi(a) * zi(b))
            else:
                if ins.get('nsw'): a, b = self.norm_s(st, a, w), self.norm_s(st, b, w)
                elif op == 'add' and w > 1:      # the representative of a constant closest to zero
                    if isinstance(b, int) and not isinstance(a, int) and b >= 1 << (w-1): b -= 1 << w
                    elif isinstance(a, int) and not isinstance(b, int) and a >= 1 << (w-1): a -= 1 << w
                r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            if ins.get('nsw'):
                lo, hi = -(1 << (w-1)), (1 << (w-1)) - 1
                g = And(le_t(lo, r), le_t(r, hi)); x, y = bounds(r)
                if not (x is not None and y is not None and lo <= x and y <= hi):
                    if not self.oblige(st, g, f'no signed overflow in {op}', 'overflow', line): return None
            elif isinstance(r, int): r %= 1 << w
            return r
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            sg = op[0] == 's'; nf = self.norm_s if sg else self.norm_u
            a, b = nf(st, a, w), nf(st, b, w)
            if isinstance(b, int) and b != 0:
                if ins.get('exact') or op in ('sdiv', 'udiv'):
                    d = divexact(a, b)
                    if d is not None: return d
                if isinstance(a, int):
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return q if op[1:] == 'div' else a - q * b
            elif not self.oblige(st, Not(eq_t(b, 0)), 'no division by zero', 'overflow', line): return None
            if sg:
                q = z3.If(zi(a) >= 0, zi(a) / zi(b), -((-zi(a)) / zi(b))) if isinstance(b, int) and b > 0 else None
                if q is None: raise Unsupported('signed division by a variable')
                return simp(q) if op == 'sdiv' else simp(zi(a) - q * zi(b))
            return simp(zi(a) / zi(b)) if op == 'udiv' else simp(zi(a) % zi(b))
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, int):
            if op == 'shl': return mul(a, 1 << b)
            a = self.norm_u(st, a, w) if op == 'lshr' else self.norm_s(st, a, w)
            d = divexact(a, 1 << b)
            return d if d is not None else (a >> b if isinstance(a, int) else simp(zi(a) / (1 << b)))
        if op in ('and', 'or', 'xor'):
            a, b = self.norm_u(st, a, w), self.norm_u(st, b, w)
            if isinstance(a, int) and isinstance(b, int): return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            if isinstance(a, int): a, b = b, a
            if op == 'and' and isinstance(b, int):
                if b == 0: return 0
                if b == (1 << w) - 1: return a
                if (b & (b + 1)) == 0: return simp(zi(a) % (b + 1))
                if ((1 << w) - b) & ((1 << w) - b - 1) == 0:      # clear low bits
                    m = (1 << w) - b; return simp(zi(a) - zi(a) % m)
            if op == 'xor' and isinstance(b, int):
                if b == (1 << w) - 1: return sub(b, a)
                if b == 1 and bounds(a) in ((0, 1),): return sub(1, a)
                if b == 0: return a
            if op in ('or', 'and') and bounds(a) == (0, 1) and bounds(b) == (0, 1):
                return Ite(Or(eq_t(a, 1), eq_t(b, 1)) if op == 'or' else And(eq_t(a, 1), eq_t(b, 1)), 1, 0)
            if op == 'or' and isinstance(b, int) and b == 0: return a
            # bit-precise fallback
            r = simp(z3.BV2Int({'and': z3.Int2BV(zi(a), w) & z3.Int2BV(zi(b), w), 'or': z3.Int2BV(zi(a), w) | z3.Int2BV(zi(b), w), 'xor': z3.Int2BV(zi(a), w) ^ z3.Int2BV(zi(b), w)}[op]))
            if not isinstance(r, int): st.assume(z3.And(r >= 0, r < (1 << w)))
            return r
        raise Unsupported(f'integer operation {op}')
    def pdiff(self, st, a, b, line):
        if a.obj == b.obj:
            if a.obj is None: return 0
            a, b = self.fix(st, a), self.fix(st, b)
            o = st.objs.get(a.obj)
            if o is None: raise Unsupported('difference of dangling pointers')
            if o.mode == 'S': return a.off - b.off
            d = sub(a.idx, b.idx)
            if o.esz is None:
                if isinstance(d, int) and d == 0: return a.off - b.off
                raise Unsupported('pointer difference with unknown element size')
            return add(mul(d, o.esz), a.off - b.off)
        self.fail(st, 'difference of pointers into different objects', 'memory', line); return None
    def tobool(self, v):
        if isinstance(v, (bool, z3.BoolRef)): return v
        if isinstance(v, int): return v % 2 == 1
        if isinstance(v, z3.ArithRef):
            if v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                x, y = v.arg(1).as_long() % 2, v.arg(2).as_long() % 2
                c = simp(v.arg(0))
                return c if (x, y) == (1, 0) else Not(c) if (x, y) == (0, 1) else bool(x)
            if bounds(v) == (0, 1): return simp(v == 1)
            return simp(v % 2 == 1)
        if isinstance(v, Undef): return v
        raise Unsupported(f'{type(v).__name__} as a truth value')
    def cast(self, st, op, a, fty, ty, line):
        if isinstance(a, Undef): return a
        if op == 'trunc':
            if ty == 'i1': return self.tobool(a)
            if isinstance(a, (bool, z3.BoolRef)): return Ite(a, 1, 0)
            return a if not isinstance(a, int) else a % (1 << width(ty))
        if op == 'zext':
            if fty == 'i1' or isinstance(a, (bool, z3.BoolRef)): return Ite(self.tobool(a), 1, 0)
            return self.norm_u(st, a, width(fty))
        if op == 'sext':
            if fty == 'i1': return Ite(self.tobool(a), -1, 0)
            return self.norm_s(st, a, width(fty))
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'): return a
        if op == 'sitofp': return Flt(z3.simplify(z3.ToReal(zi(self.norm_s(st, a, width(fty))))))
        if op == 'uitofp':
            a = Ite(self.tobool(a), 1, 0) if fty == 'i1' else self.norm_u(st, a, width(fty)); return Flt(z3.simplify(z3.ToReal(zi(a))))
        if op in ('fpext', 'fptrunc'): return a
        if op in ('fptosi', 'fptoui'):
            if a.nan is not False: raise Unsupported('conversion of what may not be a number')
            t = a.t; r = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)); return simp(r)
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ running
    def call(self, st, name, args, line=None, depth=0, fr=None, ins=None):
        """outcomes of a call to a function by symbol name"""
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of the function reached')
        f = self.funcs.get(name); d = f or self.decls.get(name)
        if d is None: raise Unsupported(f'call of unknown function {name}')
        h = self.handlers.find(name, d)
        if h is not None:
            self.externals.add(d['dem'])
            r = h(self, st, args, CallCtx(self, name, d, line, depth, ins))
            return r
        if f is None:
            raise Unsupported(f'call of external function {d["dem"][:120]}')
        return self.exec_fn(st, name, args, depth + 1)
    def exec_fn(self, st, name, args, depth=0):
        if depth > self.maxdepth: raise Unsupported('recursion too deep')
        fn = self.funcs[name]
        if not self.quiet: self.executed.add(name)
        fr = Frame(fn, args, depth)
        self.stack.append(fn['dem'])
        try: evs = self.region(fn, [(0, 0, None, st, fr)], None)
        finally: self.stack.pop()
        outs = []
        for e in evs:
            s, f2 = e[1], e[2]
            for a in f2.allocas:
                o = s.objs.get(a)
                if o is not None:
                    bad = [v for v, _ in o.cells.values() if isinstance(v, Op)] if e[0] in ('ret', 'throw') else []
                    if bad and o.kind == 'stack' and not o.const: pass
                    s.objs.pop(a, None)
            outs.append(Outcome(e[0], s, e[3] if len(e) > 3 else None))
        return outs
    def region(self, fn, work, loop):
        """run paths until they return, throw, abort, leave the loop or come back to its header"""
        evs = []; work = list(work)
        lh = fn['lh']
        while work:
            b, i, prev, st, fr = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of the function reached')
            if i == 0:
                if loop is not None:
                    if b == loop['header'] and prev != 'hdr':
                        evs.append(('back', st, fr, prev)); continue
                    if b not in loop['bset']:
                        evs.append(('exit', st, fr, (b, prev))); continue
                if b in lh and (loop is None or b != loop['header']):
                    import loops
                    for e in loops.process(self, fn, lh[b], st, fr, prev):
                        if e[0] == 'exit': work.append((e[3][0], 0, e[3][1], e[1], e[2]))
                        else: evs.append(e)
                    continue
            self.step_block(fn, b, i, prev, st, fr, work, evs)
        return evs
    def step_block(self, fn, b, i, prev, st, fr, work, evs):
        insts = fn['blocks'][b]
        while True:
            ins = insts[i]; op = ins['op']; line = ins.get('line')
            if op == 'phi':
                # all phis of the block at once
                news = {}
                while insts[i]['op'] == 'phi':
                    for v, pb in insts[i]['in']:
                        if pb == prev: news[insts[i]['id']] = self.val(st, fr, v); break
                    i += 1
                fr.vals.update(news); continue
            if op == 'br':
                s = ins['succ']
                if 'c' not in ins: work.append((s[0], 0, b, st, fr)); return
                # llvm prints successors of a conditional branch as (true, false)
                c = self.val(st, fr, ins['c'])
                if isinstance(c, Undef):
                    if c is HAVOC: raise Unsupported('branch on a leftover value')
                    self.fail(st, 'branch on an uninitialised value', 'memory', line); return
                c = simp(c)
                if isinstance(c, bool): work.append((s[0 if c else 1], 0, b, st, fr)); return
                nc = z3.Not(c); t, e = feasible(st, c), feasible(st, nc)
                if t and e:
                    s2 = st.copy(); f2 = fr.copy()
                    s2.assume(simp(nc), 'br'); work.append((s[1], 0, b, s2, f2))
                    st.assume(c, 'br'); work.append((s[0], 0, b, st, fr))
                elif t: st.assume(c, 'br'); work.append((s[0], 0, b, st, fr))
                elif e: st.assume(simp(nc), 'br'); work.append((s[1], 0, b, st, fr))
                return
            if op == 'switch':
                c = self.val(st, fr, ins['c'])
                if isinstance(c, Undef): self.fail(st, 'switch on an uninitialised value', 'memory', line); return
                if isinstance(c, (bool, z3.BoolRef)): c = Ite(c, 1, 0)
                others = []
                for cv, tgt in ins['cases']:
                    k = int(cv[2]); w = cv[1]
                    g = eq_t(self.norm_u(st, c, w), k % (1 << w))
                    if g is True:
                        work.append((tgt, 0, b, st, fr)); return
                    if g is False: continue
                    if feasible(st, g):
                        s2 = st.copy(); s2.assume(g, 'br'); work.append((tgt, 0, b, s2, fr.copy()))
                    others.append(Not(g))
                g = And(*others)
                if g is True or feasible(st, g):
                    st.assume(g, 'br'); work.append((ins['def'], 0, b, st, fr))
                return
            if op == 'ret':
                v = self.val(st, fr, ins['ops'][0]) if ins['ops'] else None
                evs.append(('ret', st, fr, v)); return
            if op == 'unreachable': return
            if op == 'resume':
                v = self.val(st, fr, ins['ops'][0]); exc = st.exc
                evs.append(('throw', st, fr, v.v[0] if isinstance(v.v[0], Exc) else exc)); return
            if op in ('call', 'invoke'):
                if not self.do_call(fn, b, i, prev, st, fr, ins, work, evs): return
                i += 1; continue
            if op == 'select':
                c, x, y = [self.val(st, fr, z) for z in ins['ops']]; c = self.tobool(c) if not isinstance(c, Undef) else c
                if isinstance(c, z3.BoolRef) and isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj != y.obj and not isinstance(simp(c), bool):
                    # pointers to two objects: one path each
                    c = simp(c); nc = simp(z3.Not(c)); t, e = feasible(st, c), feasible(st, nc)
                    if t and e:
                        s2 = st.copy(); f2 = fr.copy(); s2.assume(nc, 'br'); f2.vals[ins['id']] = y; work.append((b, i + 1, prev, s2, f2))
                    st.assume(c if t else nc, 'br'); fr.vals[ins['id']] = x if t else y; i += 1; continue
            if not self.simple(st, fr, ins, op, line): return
            i += 1
    def simple(self, st, fr, ins, op, line):
        """instruction without control flow; False if the path ends"""
        if op == 'alloca':
            ty = ins['aty']; o = None
            n = self.val(st, fr, ins['n'])
            if n != 1: raise Unsupported('variable-length array')
            if isinstance(ty, dict) and 'elt' in ty and ty['n'] > 0:
                o = new_obj(st, 'A', 'stack'); o.esz = ty['esize']; o.n = ty['n']; fr.vals[ins['id']] = Ptr(o.id, 0, 0)
            else:
                o = new_obj(st, 'S', 'stack'); fr.vals[ins['id']] = Ptr(o.id, None, 0)
                if isinstance(ty, dict): o.size = ty.get('size')
            o.name = f"{simple_name(fr.fn['dem'])}.local{ins['id']}"
            fr.allocas = fr.allocas + (o.id,)
            return True
        if op == 'load':
            p = self.val(st, fr, ins['p']); ty = ins['ty']
            if isinstance(ty, dict):
                parts = []
                for fo, ft, fs in ty['fields']:
                    v = self.load(st, Ptr(p.obj, p.idx, p.off + fo, p.ep), ft, fs, line)
                    if v is None: return False
                    parts.append(v)
                fr.vals[ins['id']] = Agg(parts); return True
            v = self.load(st, p, ty, ins['sz'], line)
            if v is None: return False
            if ty in ('double', 'float') and isinstance(v, int) and v == 0: v = Flt(z3.RealVal(0))
            if ty == 'ptr' and isinstance(v, int) and v == 0: v = NULL
            if ty == 'i1' and not isinstance(v, Undef): v = self.tobool(v)
            fr.vals[ins['id']] = v; return True
        if op == 'store':
            p = self.val(st, fr, ins['p']); v = self.val(st, fr, ins['v'])
            if isinstance(v, Agg):
                for (fo, ft, fs), x in zip(ins['vty']['fields'], v.v):
                    if not self.store(st, Ptr(p.obj, p.idx, p.off + fo, p.ep), x, fs, line): return False
                return True
            if isinstance(v, (bool, z3.BoolRef)): v = Ite(v, 1, 0)
            return self.store(st, p, v, ins['sz'], line)
        if op in ('atomicrmw', 'cmpxchg'):      # one thread of control: read, compute, write
            p = self.val(st, fr, ins['p']); v = self.val(st, fr, ins['v']); sz = ins['sz']
            old = self.load(st, p, f'i{sz*8}', sz, line)
            if old is None: return False
            if op == 'cmpxchg':
                e = self.icmp(st, 'eq', old, self.val(st, fr, ins['expect']), sz * 8, line)
                if e is None: return False
                fr.vals[ins['id']] = Agg([old, e]); return self.store(st, p, self.ite(st, e, v, old), sz, line)
            if isinstance(old, Undef): self.fail(st, 'use of an uninitialised counter', 'memory', line); return False
            if ins['rmw'] == 'xchg': new = v
            elif ins['rmw'] in ('add', 'sub'): new = self.binop(st, ins['rmw'], old, v, f'i{sz*8}', {})
            else: raise Unsupported('atomic ' + ins['rmw'])
            fr.vals[ins['id']] = old; return self.store(st, p, new, sz, line)
        if op == 'fence': return True
        if op == 'getelementptr':
            p = self.gep(st, fr, ins)
            if p is None: return False
            fr.vals[ins['id']] = p; return True
        if op == 'icmp':
            a, b = self.val(st, fr, ins['a']), self.val(st, fr, ins['b'])
            r = self.icmp(st, ins['pred'], a, b, width(ins['oty']) or 64, line)
            if r is None: return False
            fr.vals[ins['id']] = r; return True
        if op == 'fcmp':
            a, b = self.val(st, fr, ins['a']), self.val(st, fr, ins['b'])
            if isinstance(a, Undef) or isinstance(b, Undef): self.fail(st, 'comparison of an uninitialised value', 'memory', line); return False
            x, y = a.t, b.t; p = ins['pred']; nan = Or(a.nan, b.nan) if a.nan is not False or b.nan is not False else False
            if p in ('ord', 'uno'): r = nan if p == 'uno' else Not(nan)
            else:
                r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
                if nan is not False: r = Or(nan, r) if p[0] == 'u' else And(Not(nan), r)
            fr.vals[ins['id']] = simp(r) if isinstance(r, z3.ExprRef) else r; return True
        if op == 'select':
            c, a, b = [self.val(st, fr, x) for x in ins['ops']]
            fr.vals[ins['id']] = self.ite(st, c, a, b); return True
        if op == 'extractvalue':
            a = self.val(st, fr, ins['a'])
            if isinstance(a, Undef): fr.vals[ins['id']] = a; return True
            v = a
            for k in ins['idx']: v = v.v[k]
            fr.vals[ins['id']] = v; return True
        if op == 'insertvalue':
            a = self.val(st, fr, ins['a']); x = self.val(st, fr, ins['b'])
            n = max(ins['idx'][0] + 1, len(a.v) if isinstance(a, Agg) and isinstance(a.v, list) else 2)
            l = list(a.v) if isinstance(a, Agg) and isinstance(a.v, list) else [UNDEF] * n
            while len(l) < n: l.append(UNDEF)
            if len(ins['idx']) != 1: raise Unsupported('nested insertvalue')
            l[ins['idx'][0]] = x; fr.vals[ins['id']] = Agg(l); return True
        if op == 'landingpad': raise Unsupported('landing pad reached without exception')
        if op in ('freeze',): fr.vals[ins['id']] = self.val(st, fr, ins['ops'][0]); return True
        if op == 'fneg': v = self.val(st, fr, ins['ops'][0]); fr.vals[ins['id']] = Flt(z3.simplify(-v.t), v.nan); return True
        if 'oty' in ins and 'a' in ins:
            fr.vals[ins['id']] = self.cast(st, op, self.val(st, fr, ins['a']), ins['oty'], ins['ty'], line); return True
        if len(ins.get('ops', ())) == 2:
            a, b = [self.val(st, fr, x) for x in ins['ops']]
            r = self.binop(st, op, a, b, ins['ty'], ins)
            if r is None: return False
            fr.vals[ins['id']] = r; return True
        raise Unsupported('instruction ' + op)
    def ite(self, st, c, a, b):
        c = self.tobool(c)
        if isinstance(c, bool): return a if c else b
        if same(a, b): return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj and a.off == b.off and a.obj is not None and a.idx is not None and b.idx is not None: return Ptr(a.obj, Ite(c, a.idx, b.idx), a.off, a.ep)
            raise Unsupported('conditional pointer to two objects')
        if isinstance(a, Flt): return Flt(z3.If(c, a.t, b.t), False if a.nan is False and b.nan is False else Ite(c, a.nan, b.nan))
        if isinstance(a, Op): return Op(a.kind, Ite(c, a.t, b.t))
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)): return Ite(c, self.tobool(a), self.tobool(b))
        if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)): return Ite(c, a, b)
        raise Unsupported('conditional value')
    def do_call(self, fn, b, i, prev, st, fr, ins, work, evs):
        """returns True when execution just continues on this path"""
        line = ins.get('line')
        args = [self.val(st, fr, a) for a in ins['args']]
        if 'fn' in ins: name = ins['fn']
        else:
            cv = self.val(st, fr, ins['cv'])
            if isinstance(cv, Fn): name = cv.name
            elif isinstance(cv, Rec) and cv.kind == 'fnptr':
                outs = cv.call(self, st, args, CallCtx(self, 'indirect', {'dem': 'indirect', 'params': []}, line, fr.depth, ins)); name = None
            else: raise Unsupported(f'indirect call through {cv}')
        if name is not None:
            d = self.funcs.get(name) or self.decls.get(name)
            # by-value structures are passed as a pointer to a private copy
            for k, prm in enumerate(d.get('params', ())):
                if prm.get('byval') and k < len(args) and isinstance(args[k], Ptr):
                    o = new_obj(st, 'S', 'stack'); o.size = prm['sty'].get('size') if isinstance(prm['sty'], dict) else 8
                    fr.allocas = fr.allocas + (o.id,)
                    if not self.copyobj(st, Ptr(o.id), args[k], o.size, line): return False
                    args[k] = Ptr(o.id)
            outs = self.call(st, name, args, line, fr.depth, fr, ins)
        # outcomes
        res = []
        for o in outs:
            if o.kind == 'ret': res.append(o)
            elif o.kind == 'throw':
                if ins['op'] == 'invoke': self.unwind(fn, b, o.st, fr.copy(), ins, o.val, work, evs)
                else: evs.append(('throw', o.st, fr.copy(), o.val))
            elif o.kind == 'abort': evs.append(('abort', o.st, fr.copy(), o.val))
        if not res: return False
        if len(res) == 1 and res[0].st is st:
            if 'ty' in ins: fr.vals[ins['id']] = res[0].val
            if ins['op'] == 'invoke': work.append((ins['normal'], 0, b, st, fr)); return False
            return True
        for k, o in enumerate(res):
            f2 = fr.copy()
            if 'ty' in ins: f2.vals[ins['id']] = o.val
            if ins['op'] == 'invoke': work.append((ins['normal'], 0, b, o.st, f2))
            else: work.append((b, i + 1, prev, o.st, f2))
        return False
    def derives(self, ti, target):
        """public base relation between type infos"""
        if ti == target: return True
        k = self.globs.get(ti, {}).get('bases')
        if k is None: k = STDBASES.get(ti, [])
        return any(self.derives(x, target) for x in k)
    def unwind(self, fn, b, st, fr, ins, exc, work, evs):
        pad = ins['unwind']; insts = fn['blocks'][pad]
        i = 0
        while insts[i]['op'] == 'phi': i += 1
        lp = insts[i]
        sel = None; hit = False
        for kind, v in lp['clauses']:
            if kind != 'catch': raise Unsupported('exception filter')
            t = v[1] if v[0] == 'g' else None
            if t is None or self.derives(exc.ti, t):
                hit = True; sel = ('sel', t); break
        if not hit and not lp['cleanup']:
            evs.append(('throw', st, fr, exc)); return
        # phis of the landing pad block
        j = 0; news = {}
        while insts[j]['op'] == 'phi':
            for v, pb in insts[j]['in']:
                if pb == b: news[insts[j]['id']] = self.val(st, fr, v); break
            j += 1
        fr.vals.update(news)
        fr.vals[lp['id']] = Agg([exc, self.selid(sel[1]) if hit else 0])
        st.exc = exc
        work.append((pad, i + 1, b, st, fr))
    def selid(self, t):
        if t is None: return 1
        import zlib; return 2 + (zlib.crc32(t.encode()) % (1 << 29))
STDBASES = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
            '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
            '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
            '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'], '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt11range_error': ['_ZTISt13runtime_error'],
            '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt17bad_function_call': ['_ZTISt9exception']}
class CallCtx:
    __slots__ = ('ex', 'name', 'decl', 'line', 'depth', 'ins')
    def __init__(self, ex, name, decl, line, depth, ins): self.ex = ex; self.name = name; self.decl = decl; self.line = line; self.depth = depth; self.ins = ins
    @property
    def dem(self): return self.decl['dem']
    @property
    def sret(self): return bool(self.decl.get('params')) and self.decl['params'][0].get('sret', False)
