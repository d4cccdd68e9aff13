"""Loop rule: an inductive invariant is inferred for every loop and then discharged.

The invariant is a conjunction of candidates; each is kept only when it is proved to hold on entry and to be
preserved by every path through the body (assuming the whole conjunction before the iteration). Candidates come
from what the body was seen to do: constant steps, guards, per-iteration stores and branch conditions."""
from core import *
import core, text as T
from core import zi, zb

class Cand:
    __slots__ = ('f', 'why', 'key', 'stage')
    def __init__(self, f, why, key, stage=1): self.f = f; self.why = why; self.key = key; self.stage = stage
class Env:
    """values of the modified locations at one point, and the iteration count"""
    __slots__ = ('st', 'fr', 'k', 'v', 'g')
    def __init__(self, st, fr, k, v, g): self.st = st; self.fr = fr; self.k = k; self.v = v; self.g = g

MISSING = ('missing',)
def read_loc(st, fr, loc):
    k = loc[0]
    if k == 'phi': return fr.vals.get(loc[1], MISSING)
    if k == 'ghost': return st.ghost.get(loc[1], MISSING)
    o = st.objs.get(loc[1])
    if o is None: return MISSING
    if k == 'cell': c = o.cells.get(loc[2]); return c[0] if c is not None else MISSING
    if k == 'arr': f = o.fields.get(loc[2]); return f.arr if f is not None else MISSING
    if k == 'live': return o.live.get(loc[2], MISSING)
    if k == 'n': return o.n if o.n is not None else MISSING
    if k == 'member': return o.member
    if k == 'ep': return o.ep
    if k == 'alive': return o.alive
def diff(h, b, hfr, bfr, phis):
    """locations whose value differs between the header state and a back state"""
    out = {}
    for oid, ho in h.objs.items():
        bo = b.objs.get(oid)
        if bo is ho: continue
        if bo is None: raise Unsupported('object removed by a loop iteration')
        if ho.mode != bo.mode: raise Unsupported('storage viewed differently after an iteration')
        for off in set(ho.cells) | set(bo.cells):
            x, y = ho.cells.get(off), bo.cells.get(off)
            if x is None or y is None or not same(x[0], y[0]) or x[1] != y[1]:
                out[('cell', oid, off)] = (y or x)[1]
        for off in set(ho.fields) | set(bo.fields):
            x, y = ho.fields.get(off), bo.fields.get(off)
            if x is None or not x.arr.eq(y.arr) or x.kind != y.kind: out[('arr', oid, off)] = y
        for off in set(ho.live) | set(bo.live):
            x, y = ho.live.get(off), bo.live.get(off)
            if x is None or y is None or not x.eq(y): out[('live', oid, off)] = None
        if not same(ho.n, bo.n): out[('n', oid)] = None
        if ho.member is not None and not ho.member.eq(bo.member): out[('member', oid)] = None
        if ho.ep is not bo.ep: out[('ep', oid)] = None
        if ho.alive != bo.alive: out[('alive', oid)] = None
    for p in phis:
        if not same(hfr.vals.get(p), bfr.vals.get(p)): out[('phi', p)] = None
    for g in set(h.ghost) | set(b.ghost):
        if g not in h.ghost or g not in b.ghost or not same(h.ghost[g], b.ghost[g]): out[('ghost', g)] = None
    return out

def is_app(t, name): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == name
def rank_of(ex, st, it, m, force=False):
    """position of an iterator in the enumeration of m, or None"""
    if same(it.isend, True): return CARD(m)
    if isinstance(it.key, z3.ExprRef) and is_app(it.key, 'nth') and it.key.arg(0).eq(m):
        t = it.key.arg(1); e = simp(zi(t) >= CARD(m))
        if same(it.isend, e) or ex.quick(st, zb(it.isend) == zb(e)): return t
    if force or ex.quick(st, z3.Or(zb(it.isend), z3.Select(m, zi(it.key)))):
        if it.isend is False: return RANK(m, zi(it.key))
        return z3.If(zb(it.isend), CARD(m), RANK(m, zi(it.key)))
    return None
def at_rank(store, m, r): return Iter(store, simp(zi(r) >= CARD(m)), NTH(m, zi(r)))

def mentions_if(t):
    """an index computed with a test or a wrap-around still in it: not in closed form"""
    return any(z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_ITE or (x.num_args() == 0 and x.decl().name().startswith('wrap!')))
               for x in subterms(t))
class Slot:
    """one integer (or boolean, real, array) component of a modified location"""
    __slots__ = ('name', 'loc', 'sort', 'h', 'e', 'get', 'size', 'cf', 'kind')
    def __init__(self, name, loc, sort, h, e, get, size=8, kind=None): self.name = name; self.loc = loc; self.sort = sort; self.h = h; self.e = e; self.get = get; self.size = size; self.cf = None; self.kind = kind

class Loop:
    def __init__(self, ex, fn, L, st, fr, prev):
        self.ex = ex; self.fn = fn; self.L = L; self.st0 = st; self.fr0 = fr; self.line = L.get('line')
        self.hdr = L['header']; insts = fn['blocks'][self.hdr]
        self.phis = []
        for ins in insts:
            if ins['op'] != 'phi': break
            self.phis.append(ins)
        self.nphi = len(self.phis)
        for ins in self.phis:
            for v, pb in ins['in']:
                if pb == prev: self.tmp = (ins['id'], ex.val(st, fr, v)); break
        news = {}
        for ins in self.phis:
            for v, pb in ins['in']:
                if pb == prev: news[ins['id']] = ex.val(st, fr, v)
        fr.vals.update(news)
        self.M = {}                       # modified locations -> size info
        self.dropped = set(); self.wide = set(); self.again = False
        self.k = fresh_int('k', 0, None)
    # --------------------------------------------------------- header state
    def header(self, inv=()):
        """state at the loop head with every modified location replaced by an arbitrary value"""
        st = self.st0.copy(); fr = self.fr0.copy(); self.slots = {}; self.texts = {}; self.lists = []
        order = sorted(self.M, key=lambda l: (0 if l[0] in ('member', 'ep', 'alive') else 1, str(l)))
        for loc in order: self.havoc(st, fr, loc)
        st.assume(self.k >= 0)
        self.hst, self.hfr = st.copy(), fr.copy()
        for c in inv: st.assume(c.f(self.env_header(st, fr)))
        return st, fr
    def hv(self, key, mk):
        """header constants stay the same from one pass to the next"""
        if not hasattr(self, 'hconst'): self.hconst = {}
        if key not in self.hconst: self.hconst[key] = mk()
        return self.hconst[key]
    def addslot(self, s): self.slots[s.name] = s
    def havoc(self, st, fr, loc):
        k = loc[0]; e = read_loc(self.st0, self.fr0, loc); nm = '.'.join(str(x) for x in loc)
        if k == 'alive': raise Unsupported('storage released inside a loop')
        if k == 'ep': st.w(loc[1]).ep = self.hv((loc, 'ep'), object); return
        if k == 'n':
            if nm in self.wide: raise Unsupported('sequence size out of range')
            v = self.hv(loc, lambda: fresh_int('n', 0, 1 << 62)); o = st.w(loc[1]); o.n = v
            self.addslot(Slot(nm, loc, 'int', v, zi(e), lambda s, f: zi(s.objs[loc[1]].n))); return
        if k in ('arr', 'live', 'member'):
            if e is MISSING: e0 = None
            else: e0 = e
            if k == 'arr':
                info = self.M[loc]
                if e0 is None: e0 = self.hv((loc, 'e'), lambda: fresh_arr('unset', 'real' if info.kind == 'flt' else 'bool' if info.kind == 'bit' else 'int'))
                ty = 'real' if info.kind == 'flt' else 'bool' if info.kind == 'bit' else 'int'
                lo, hi = (0, (1 << int(info.kind[1:])) - 1) if isinstance(info.kind, str) and re.match(r'i\d+$', info.kind) else (None, None)
                a = self.hv(loc, lambda: fresh_arr('A', ty, lo, hi)); o = st.w(loc[1])
                fk = info.kind
                if isinstance(fk, tuple) and fk[0] == 'ptr' and loc[2] in o.fields and o.fields[loc[2]].kind != fk: raise Unsupported('array of pointers into different objects')
                o.fields[loc[2]] = Field(fk, a, info.size)
                if o.mode == 'A' and o.kind != 'param' and loc[2] not in o.live and ('live', loc[1], loc[2]) not in self.M: pass
                get = lambda s, f: s.objs[loc[1]].fields[loc[2]].arr
            elif k == 'live':
                if e0 is None: e0 = z3.K(z3.IntSort(), z3.BoolVal(False))
                a = self.hv(loc, lambda: fresh_arr('L', 'bool')); st.w(loc[1]).live[loc[2]] = a
                get = lambda s, f: s.objs[loc[1]].live[loc[2]]
            else:
                a = self.hv(loc, lambda: fresh_arr('M', 'bool')); st.w(loc[1]).member = a
                get = lambda s, f: s.objs[loc[1]].member
            self.addslot(Slot(nm, loc, 'array', a, e0, get, kind=k)); return
        # scalar values
        sz = self.M[loc] if k == 'cell' else 8
        h = self.hval(st, fr, loc, e, nm, sz)
        if k == 'phi': fr.vals[loc[1]] = h
        elif k == 'ghost': st.ghost[loc[1]] = h
        else:
            o = st.w(loc[1]); o.cells[loc[2]] = (h, sz)
    def scalar(self, loc):
        return lambda s, f: read_loc(s, f, loc)
    def hval(self, st, fr, loc, e, nm, sz):
        rd = self.scalar(loc)
        bad = self.badtype.get(loc) if hasattr(self, 'badtype') else None
        if bad or e is MISSING or isinstance(e, Undef) or isinstance(e, (Fn, Agg)): return HAVOC
        if isinstance(e, (bool, z3.BoolRef)):
            v = self.hv(loc, lambda: fresh_bool('b')); self.addslot(Slot(nm, loc, 'bool', v, zb(e), lambda s, f: zb(rd(s, f)))); return v
        if isinstance(e, (int, z3.ArithRef)):
            lo, hi = self.guess(e, sz, nm)
            v = self.hv((loc, lo, hi), lambda: fresh_int('v', lo, hi))
            self.addslot(Slot(nm, loc, 'int', v, zi(e), lambda s, f: zi(rd(s, f)), sz)); return v
        if isinstance(e, Op):
            v = self.hv(loc, lambda: fresh_int('o')); self.addslot(Slot(nm, loc, 'op', v, zi(e.t), lambda s, f: zi(rd(s, f).t))); return Op(e.kind, v)
        if isinstance(e, Flt):
            if e.nan is not False: raise Unsupported('a loop over what may not be a number')
            v = self.hv(loc, lambda: fresh_real('d')); self.addslot(Slot(nm, loc, 'real', v, e.t, lambda s, f: rd(s, f).t)); return Flt(v)
        if isinstance(e, Ptr):
            if e.obj is None or e.idx is None: raise Unsupported('pointer to structures changed by a loop')
            ep = e.ep if e.ep is None or ('ep', e.obj) not in self.M else st.objs[e.obj].ep
            v = self.hv(loc, lambda: fresh_int('p'))
            self.addslot(Slot(nm, loc, 'int', v, zi(e.idx), lambda s, f: zi(rd(s, f).idx), kind='ptr')); return Ptr(e.obj, v, e.off, ep)
        if isinstance(e, Iter):
            if e.isend is None: return HAVOC
            # another store after an iteration is found when the body is compared
            if ('member', e.store) not in self.M and nm not in self.wide:
                from models import freeze
                m0 = freeze(self.st0, self.st0.objs[e.store]); m = freeze(st, st.objs[e.store])
                if same(m0, m):
                    r0 = rank_of(self.ex, self.st0, e, m0)
                    if r0 is not None:
                        v = self.hv(loc, lambda: fresh_int('r', 0, 1 << 60)); st.assume(z3.And(v >= 0, v <= CARD(m)))
                        self.addslot(Slot(nm, loc, 'rank', v, zi(r0), lambda s, f: zi(rank_of(self.ex, s, rd(s, f), m, True)), kind=m))
                        return at_rank(e.store, m, v)
            b = self.hv((loc, 'e'), lambda: fresh_bool('ie')); v = self.hv((loc, 'k'), lambda: fresh_int('ik'))
            self.addslot(Slot(nm + '.end', loc, 'bool', b, zb(e.isend), lambda s, f: zb(rd(s, f).isend)))
            self.addslot(Slot(nm + '.key', loc, 'op', v, zi(e.key), lambda s, f: zi(rd(s, f).key), kind=('key', e.store)))
            return Iter(e.store, b, v)
        if isinstance(e, LIter):
            v = self.hv(loc, lambda: fresh_int('lp'))
            self.addslot(Slot(nm, loc, 'int', v, zi(e.pos), lambda s, f: zi(rd(s, f).pos)))
            from models import lsize
            self.lists.append((loc, rd)); return LIter(e.store, simp(v >= zi(lsize(st, e.store))), v)
        if isinstance(e, Rec):
            f = {}
            for key, x in e.f.items():
                if isinstance(x, Text):
                    if (loc, key) in getattr(self, 'changed_text', ()):
                        self.texts[(loc, key)] = x
                        f[key] = self.header_text(loc, key, x)
                    else: f[key] = x
                elif (loc, key) in getattr(self, 'changed_rec', ()):
                    if isinstance(x, (bool, z3.BoolRef)):
                        v = self.hv((loc, key), lambda: fresh_bool('rb')); self.addslot(Slot(f'{nm}.{key}', loc, 'bool', v, zb(x), lambda s, f2, key=key: zb(rd(s, f2).f[key])))
                    elif isinstance(x, (int, z3.ArithRef)):
                        v = self.hv((loc, key), lambda: fresh_int('ri')); self.addslot(Slot(f'{nm}.{key}', loc, 'int', v, zi(x), lambda s, f2, key=key: zi(rd(s, f2).f[key])))
                    else: raise Unsupported(f'model state {e.kind}.{key} changed by a loop')
                    f[key] = v
                else: f[key] = x
            return Rec(e.kind, **f)
        if isinstance(e, Cont): raise Unsupported('container object replaced inside a loop')
        raise Unsupported(f'{type(e).__name__} changed by a loop')
    def header_text(self, loc, key, x):
        p = getattr(self, 'pieces', {}).get((loc, key))
        if p is None: return Text((('var', f'text{loc}{key}'),))
        return Text(x.a + (('fold', p, 0, self.k),))
    def guess(self, e, sz, nm):
        if nm in self.wide: return (None, None)
        lo, hi = bounds(e); w = 8 * sz
        if sz == 1 and lo is not None and lo >= 0 and hi is not None and hi <= 1: return (0, 1)
        if lo is not None and lo < 0: return (-(1 << (w-1)), (1 << (w-1)) - 1)
        if sz == 4: 
            return (0, (1 << 32) - 1) if nm in getattr(self, 'unsig', ()) else (-(1 << 31), (1 << 31) - 1)
        return (0, (1 << w) - 1)
    def env_header(self, st, fr): return Env(st, fr, self.k, {n: s.h for n, s in self.slots.items()}, dict(self.ghosth))
    def env_entry(self): return Env(self.st0, self.fr0, 0, {n: s.e for n, s in self.slots.items()}, dict(self.ghost0))
    def env_back(self, st, fr):
        v = {}
        for n, s in self.slots.items():
            try: v[n] = s.get(st, fr)
            except Exception as x: v[n] = None
        return Env(st, fr, add(self.k, 1), v, {n: g(st, fr, v) for n, g in self.ghostn.items()})
    # --------------------------------------------------------- body
    def body(self, st, fr):
        self.npc = len(st.pc)
        evs = self.ex.region(self.fn, [(self.hdr, self.nphi, 'hdr', st, fr)], self.L)
        out = []
        for e in evs:
            if e[0] == 'back':
                _, s, f, pb = e; news = {}
                for ins in self.phis:
                    for v, b in ins['in']:
                        if b == pb: news[ins['id']] = self.ex.val(s, f, v)
                f.vals.update(news)
            out.append(e)
        return out
    def discover(self):
        """which locations an iteration can change"""
        self.ghosth = {}; self.ghost0 = {}; self.ghostn = {}; self.badtype = {}; self.changed_text = set(); self.changed_rec = set()
        for rnd in range(12):
            st, fr = self.header()
            hst, hfr = st.copy(), fr.copy()
            evs = self.body(st, fr); new = False
            for e in evs:
                if e[0] != 'back': continue
                s, f = e[1], e[2]; viewed = False
                for oid, ho in hst.objs.items():
                    bo = s.objs.get(oid)
                    if bo is not None and ho.esz is None and bo.esz is not None and ho.mode == 'A' and bo.mode == 'A' and self.st0.objs[oid].esz is None:
                        # the size of the elements of raw storage became known inside the loop
                        self.st0.w(oid).hdr = bo.hdr; self.ex.set_esz(self.st0, oid, bo.esz); viewed = new = True
                if viewed: break
                for loc, info in diff(hst, s, hfr, f, [p['id'] for p in self.phis]).items():
                    if loc not in self.M: self.M[loc] = info; new = True
                    a, b = read_loc(self.st0, self.fr0, loc), read_loc(s, f, loc)
                    if loc[0] == 'arr' and self.M[loc] is not info and isinstance(info, Field): self.M[loc] = info
                    if loc[0] in ('cell', 'phi', 'ghost') and not self.badtype.get(loc) and self.kindchange(a, b, loc): self.badtype[loc] = True; new = True
                    if isinstance(a, Rec) and isinstance(b, Rec):
                        hcur = read_loc(hst, hfr, loc)
                        for key in b.f:
                            hc = hcur.f.get(key) if isinstance(hcur, Rec) else a.f.get(key)
                            if not same(hc, b.f[key]):
                                t = self.changed_text if isinstance(b.f[key], Text) else self.changed_rec
                                if (loc, key) not in t: t.add((loc, key)); new = True
            if not new: return evs
        raise Unsupported('loop frame not found')
    def kindchange(self, a, b, loc):
        if a is MISSING or isinstance(a, Undef): return True
        if b is MISSING or isinstance(b, Undef): return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj or (a.idx is None) != (b.idx is None) or a.off != b.off or (a.idx is None): return True
            return False
        if isinstance(a, Iter) and isinstance(b, Iter): return a.store != b.store or a.isend is None
        if isinstance(a, LIter) and isinstance(b, LIter): return a.store != b.store
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)): return False
        if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)): return False
        if type(a) is not type(b): return True
        if isinstance(a, Op): return a.kind != b.kind
        if isinstance(a, Rec): return a.kind != b.kind
        return False
    # --------------------------------------------------------- candidates
    def closed(self, t, allow=()):
        """the term mentions nothing created after the loop was reached"""
        for n in consts_of(t):
            if n in allow: continue
            if BIRTH.get(n, -1) >= self.birth: return False
        return True
    def subst(self, t, kap, arrays='entry', use=None):
        """header constants replaced by their closed forms at iteration kap"""
        pairs = []
        for s in self.slots.values():
            if s.sort == 'array':
                if arrays == 'entry': pairs.append((s.h, s.e))
            elif s.cf is not None and s.h.num_args() == 0: pairs.append((s.h, s.cf(kap)))
        pairs.append((self.k, zi(kap)))
        return z3.substitute(t, *pairs) if pairs else t
    def brs(self, s):
        """branch conditions an event took inside the body"""
        return [f for f, tag in s.pc[self.npc:] if tag == 'br']
    def candidates(self, evs):
        ex = self.ex; C = []; seen = set()
        backs = [(e[1], e[2]) for e in evs if e[0] == 'back']
        S = self.slots
        def add_c(f, why, stage=1):
            # one formula over the header constants; its value elsewhere is a simultaneous substitution
            t = f(self.env_header(self.hst, self.hfr)); t = z3.simplify(zb(t))
            if z3.is_true(t): return
            key = t.sexpr()
            if key in seen or key in self.dropped: return
            seen.add(key); C.append(Cand(lambda E, t=t: self.inst(t, E, True), why, key, stage))
        self.birth = self.birth0
        benv = [self.env_back(s, f) for s, f in backs]
        ints = [s for s in S.values() if s.sort in ('int', 'rank', 'op')]
        # ---- constant steps
        deltas = {}
        for s in ints:
            ds = []
            for b in benv:
                if b.v[s.name] is None: ds = None; break
                d = sub(b.v[s.name], s.h)
                if not isinstance(d, int): 
                    ds = None; break
                ds.append(d)
            if ds is not None: deltas[s.name] = ds
        for s in ints:
            n = s.name
            if n in deltas and deltas[n] and len(set(deltas[n])) == 1:
                d = deltas[n][0]
                s.cf = (lambda s, d: lambda kap: zi(add(s.e, mul(d, kap))))(s, d)
                add_c(lambda E, n=n, s=s, d=d: zi(E.v[n]) == s.e + d * zi(E.k), f'{n} advances by {d}')
            elif n in deltas and deltas[n]:
                if min(deltas[n]) >= 0: add_c(lambda E, n=n, s=s: zi(E.v[n]) >= s.e, f'{n} grows'); add_c(lambda E, n=n, s=s, d=max(deltas[n]): zi(E.v[n]) <= s.e + d * zi(E.k), f'{n} step')
                if max(deltas[n]) <= 0: add_c(lambda E, n=n, s=s: zi(E.v[n]) <= s.e, f'{n} shrinks'); add_c(lambda E, n=n, s=s, d=min(deltas[n]): zi(E.v[n]) >= s.e + d * zi(E.k), f'{n} step')
                for s2 in ints:
                    if s2 is not s and s2.name in deltas and deltas[s2.name] == deltas[n] and s2.name < n:
                        add_c(lambda E, n=n, m=s2.name, s=s, s2=s2: zi(E.v[n]) - s.e == zi(E.v[m]) - s2.e, 'equal steps')
                    if s2 is not s and s2.name in deltas and [-x for x in deltas[s2.name]] == deltas[n] and s2.name < n:
                        add_c(lambda E, n=n, m=s2.name, s=s, s2=s2: zi(E.v[n]) - s.e == s2.e - zi(E.v[m]), 'opposite steps')
        self.deltas = deltas
        # ---- values set afresh in every iteration
        for rnd in range(3):
            for s in S.values():
                if s.cf is not None or s.sort == 'array' or not benv: continue
                n = s.name; vs = [b.v[n] for b in benv]
                if any(v is None for v in vs): continue
                consts = [v for v in vs if not v.eq(s.h)]
                if not consts: continue
                g = consts[0]; ok = True
                if any(not (v.eq(g)) for v in vs):
                    ok = all(v.eq(g) or ex.quick(b.st, v == g) for v, b in zip(vs, benv))
                if not ok or s.h.decl().name() in consts_of(g): continue
                pr = self.subst(g, zi(z3.Int('kap!'))); allow = ('kap!',)
                if not self.closed(pr, allow): continue
                def cf(kap, s=s, pr=pr): return z3.If(zi(kap) == 0, s.e, z3.substitute(pr, (z3.Int('kap!'), zi(simp(zi(kap) - 1)))))
                s.cf = cf
                add_c(lambda E, n=n, cf=cf: E.v[n] == cf(zi(E.k)), f'{n} is set in every iteration')
        for s in S.values():
            if s.cf is None and s.sort in ('int', 'op', 'bool', 'rank'):
                self.captured(s, benv, add_c)
        # ---- type ranges
        for s in S.values():
            if s.sort == 'int':
                w = 8 * s.size; n = s.name
                lo, hi = VB.get(s.h.decl().name(), (None, None)) if s.h.num_args() == 0 else (None, None)
                if lo is not None: add_c(lambda E, n=n, lo=lo, hi=hi: z3.And(zi(E.v[n]) >= lo, zi(E.v[n]) <= hi), f'{n} in range')
            if s.sort == 'rank': add_c(lambda E, n=s.name, m=s.kind: z3.And(zi(E.v[n]) >= 0, zi(E.v[n]) <= CARD(m)), 'cursor in range')
            if s.name.endswith('.key') and isinstance(s.kind, tuple):
                st_ = s.kind[1]; en = s.name[:-4] + '.end'
                add_c(lambda E, n=s.name, en=en, o=st_: z3.Or(zb(E.v[en]), z3.Select(E.st.objs[o].member, zi(E.v[n]))), 'cursor valid')
        # ---- guards
        names = {s.h.decl().name(): s for s in S.values() if s.h.num_args() == 0}
        for e in evs:
            if e[0] not in ('back', 'exit', 'ret', 'throw'): continue
            for f in self.brs(e[1]):
                for a, b in int_atoms(f):
                    for t in (a, b): pass
                    cs = consts_of(a, None, None) | consts_of(b, None, None)
                    if not any(n in names for n in cs): continue
                    d = simp(a - b)
                    if isinstance(d, int) or not self.closed(d, set(names) | {self.k.decl().name()}): continue
                    if has_sel(d, names): continue
                    pure = (is_const(a) or z3.is_int_value(a)) and (is_const(b) or z3.is_int_value(b))
                    for sgn in (1, -1):
                        add_c(lambda E, d=d, sgn=sgn: d * sgn <= 0, 'guard bound')
                        if not pure: add_c(lambda E, d=d, sgn=sgn: d * sgn <= 1, 'guard bound')
        # ---- arrays
        pcs = []
        for s, f in backs: pcs.append([x for x in self.brs(s)])
        for s in S.values():
            if s.sort == 'array': self.array_cands(s, benv, pcs, add_c)
        # ---- everything visited so far went through one of the body's paths
        self.visited(benv, pcs, add_c)
        # ---- counters against container sizes
        for s in S.values():
            if s.sort == 'array' and s.kind == 'member':
                n = s.name
                add_c(lambda E, n=n, s=s: CARD(E.v[n]) <= CARD(s.e) + zi(E.k), 'size grows by at most one')
                add_c(lambda E, n=n, s=s: CARD(E.v[n]) == CARD(s.e) + zi(E.k), 'size grows by one')
                add_c(lambda E, n=n, s=s: CARD(E.v[n]) >= CARD(s.e), 'size does not shrink')
        # ---- candidates a contract suggests in terms of its own ghost functions
        n = len(C)
        for h in ex.hints: h(self, lambda f, why, stage=1: add_c(f, 'hint: ' + why, stage))
        std = 'captured earlier|initially|holds what iteration|not assigned since|every earlier iteration|written by'
        # a contract that states what its loops maintain may dispense with families of generic candidates
        if len(C) > n:
            drop = '|'.join(filter(None, [getattr(h, 'drop', '' if getattr(h, 'keep', False) else std) for h in ex.hints]))
            if drop: C = [c for c in C if c.why.startswith('hint') or not re.search(drop, c.why)]
        return C
    def inst(self, t, E, strict=False):
        """header term t at another point"""
        pairs = []
        cs = consts_of(t) if strict else ()
        for n, s in self.slots.items():
            if s.h.num_args(): continue
            if E.v.get(n) is None:
                if strict and s.h.decl().name() in cs: raise Unsupported('value not available')
                continue
            pairs.append((s.h, E.v[n]))
        pairs.append((self.k, zi(E.k)))
        pairs += [(self.ghosth[n], E.g[n]) for n in self.ghosth]
        return z3.substitute(t, *pairs)
    def captured(self, s, benv, add_c):
        """value last assigned in some iteration w (ghost): s == value(w) and the branch conditions of w hold"""
        n = s.name; assigned = [b for b in benv if b.v[n] is not None and not b.v[n].eq(s.h)]
        if not assigned or any(b.v[n] is None for b in benv): return
        gn = 'w:' + n
        if gn not in self.ghosth:
            w = self.hv(gn, lambda: fresh_int('w')); self.ghosth[gn] = w; self.ghost0[gn] = z3.IntVal(-1)
            h = s.h
            self.ghostn[gn] = lambda st, fr, v, n=n, h=h, w=w: w if v[n] is None or v[n].eq(h) else self.k
        for b in benv:
            if b.g.get(gn) is None: b.g[gn] = self.ghostn[gn](b.st, b.fr, b.v)
        add_c(lambda E, gn=gn: z3.And(zi(E.g[gn]) >= -1, zi(E.g[gn]) < zi(E.k)), f'{n} captured earlier')
        add_c(lambda E, gn=gn, n=n, s=s: z3.Implies(zi(E.g[gn]) == -1, E.v[n] == s.e), f'{n} initially')
        for arr in ('entry', 'current'):
            alts = []
            kap = z3.Int('kap!')
            okall = True
            for b in assigned:
                g = b.v[n]; conj = []
                gv = self.subst(g, kap, arr)
                al = {'kap!'} | ({x.h.decl().name() for x in self.slots.values() if x.sort == 'array'} if arr == 'current' else set())
                if self.closed(gv, al): conj.append(('eq', gv))
                for f in self.brs(b.st):
                    ff = self.subst(f, kap, arr)
                    if self.closed(ff, al): conj.append(('f', ff))
                alts.append(conj)
            def F(E, gn=gn, n=n, alts=alts):
                w = zi(E.g[gn]); o = []
                for conj in alts:
                    o.append(z3.And(*[z3.substitute(x[1], (kap, w)) if x[0] == 'f' else E.v[n] == z3.substitute(x[1], (kap, w)) for x in conj]) if conj else z3.BoolVal(True))
                r = z3.Implies(w >= 0, z3.Or(*o))
                return r
            add_c(F, f'{n} holds what iteration w gave it ({arr})')
        # nothing assigned since
        non = [b for b in benv if b.v[n].eq(s.h)]
        for arr in ('entry', 'current'):
            self.forall_paths(non, add_c, arr, lambda E, gn=gn: zi(E.g[gn]) + 1, f'{n} not assigned since')
    def forall_paths(self, benv, add_c, arr, lo, why, hi=None):
        """for all iterations kappa in [lo,k): one of the given paths was taken"""
        kap = z3.Int('kap!'); al = {'kap!'} | ({x.h.decl().name() for x in self.slots.values() if x.sort == 'array'} if arr == 'current' else set())
        alts = []
        cur_sl = {x.h.decl().name(): n for n, x in self.slots.items() if x.sort in ('int', 'op', 'bool', 'rank', 'real') and x.cf is None and x.h.num_args() == 0} if arr == 'current' else {}
        al |= set(cur_sl)
        for b in benv:
            conj = []
            for f in self.brs(b.st):
                ff = self.subst(f, kap, arr)
                if self.closed(ff, al): conj.append(ff)
            conj = [simp(c) for c in conj]; conj = [c for c in conj if not (isinstance(c, bool) and c)]
            if any(isinstance(c, bool) for c in conj): continue
            alts.append(conj)
        # a condition every path shares with all others is kept; a path without any makes the fact trivial
        if not alts or any(not c for c in alts): return
        body = z3.Or(*[z3.And(*c) for c in alts])
        body = z3.simplify(body)
        if z3.is_true(body) or 'kap!' not in consts_of(body): return
        # quantify over the index of the first array access, so that it can be triggered
        var, inv, guard, pat = self.pick_index(body, kap)
        q = z3.Int('q!v')
        def F(E, lo=lo):
            bq = rewrite_nth(z3.simplify(z3.substitute(body, (kap, inv(q)))))
            kk = inv(q); l = lo(E)
            rng = simp(z3.And(zi(l) <= kk, kk < zi(E.k), *guard(q)))
            P = pats(bq, q)
            return z3.ForAll([q], z3.Implies(zb(rng), bq), patterns=P) if P else z3.ForAll([q], z3.Implies(zb(rng), bq))
        add_c(F, why + f' ({arr})')
    def pick_index(self, body, kap):
        """choose a quantifier variable: index t with t = c*kap + t0, or key nth(m, kap + r0), or kap itself"""
        for x in subterms(body):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
                r = self.invert(x.arg(1), kap)
                if r is not None: return r
        return (None, lambda q: q, lambda q: [], None)
    def invert(self, t, kap):
        if is_app(t, 'nth'):
            m, r = t.arg(0), t.arg(1)
            i = self.lin_inv(r, kap)
            if i is None: return None
            return ('nth', lambda q, m=m, i=i: i(RANK(m, q)), lambda q, m=m: [z3.Select(m, q)], None)
        i = self.lin_inv(t, kap)
        if i is None: return None
        return ('idx', i, lambda q: [], None)
    def lin_inv(self, t, kap):
        """t = c*kap + t0 with c = +-1: q -> kappa"""
        m, c0 = lin(t); c = 0
        for kk, (co, x) in m.items():
            if x.eq(kap): c = co
            elif 'kap!' in consts_of(x): return None
        if c not in (1, -1): return None
        t0 = simp(z3.substitute(t, (kap, z3.IntVal(0))))
        return (lambda q: zi(simp(c * (zi(q) - zi(t0)))))
    def visited(self, benv, pcs, add_c):
        for arr in ('entry', 'current'):
            self.forall_paths(benv, add_c, arr, lambda E: 0, 'every earlier iteration came back')
    def store_chain(self, t, base):
        """list of (index, value) stores over base, or None"""
        out = []
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE: out.append((t.arg(1), t.arg(2))); t = t.arg(0)
        if not t.eq(base): return None
        return out[::-1]
    def array_cands(self, s, benv, pcs, add_c):
        n = s.name; q = z3.Int('q!a'); kap = z3.Int('kap!')
        chains = []
        for b in benv:
            if b.v[n] is None: return
            c = self.store_chain(b.v[n], s.h)
            if c is None: chains = None; break
            chains.append(c)
        if chains is None:
            self.array_opaque(s, benv, add_c); return
        A0 = s.e
        def eqv(a, b): return a == b
        # indices not written keep their value
        idx_terms = []
        for c in chains:
            for t, v in c:
                if not any(t.eq(x) for x in idx_terms): idx_terms.append(t)
        # reads at loop-invariant indices
        inv_reads = []
        for b in benv:
            fs = self.brs(b.st) + [v for nm, v in b.v.items() if isinstance(v, z3.ExprRef)]
            for f in fs:
                for x in subterms(f):
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).eq(s.h) and self.closed(x.arg(1)): 
                        if not any(x.arg(1).eq(y) for y in inv_reads): inv_reads.append(x.arg(1))
        for j in inv_reads: add_c(lambda E, j=j: z3.Select(E.v[n], j) == z3.Select(A0, j), 'entry not changed')
        if any(mentions_if(t) for t in idx_terms): self.again = True
        single = all(len(c) <= 1 for c in chains)
        forms = []
        for t in idx_terms:
            tk = simp(self.subst(t, kap))
            if isinstance(tk, int): tk = z3.IntVal(tk)
            forms.append((t, tk, self.invert(tk, kap) if self.closed(tk, {'kap!'}) else None))
        # case 1: every write goes to one place determined by the iteration
        if len(idx_terms) == 1 and forms[0][2] is not None:
            t, tk, (kind, inv, guard, _) = forms[0]
            def vis(E, q): return simp(z3.And(0 <= inv(q), inv(q) < zi(E.k), *guard(q)))
            add_c(lambda E: z3.ForAll([q], z3.Implies(z3.Not(zb(vis(E, q))), z3.Select(E.v[n], q) == z3.Select(A0, q)), patterns=[z3.Select(E.v[n], q)]), f'{n}: rest unchanged')
            for arr in ('entry', 'current'):
                parts = []
                for b, c in zip(benv, chains):
                    cond = []
                    al = {'kap!'} | ({x.h.decl().name() for x in self.slots.values() if x.sort == 'array'} if arr == 'current' else set())
                    for f in self.brs(b.st):
                        ff = self.subst(f, kap, arr)
                        if self.closed(ff, al): cond.append(ff)
                    v = c[-1][1] if c else z3.Select(s.h, t)
                    vv = self.subst(v, kap, arr) if c else z3.Select(A0, tk)
                    if not self.closed(vv, al): parts.append(None); continue
                    parts.append((cond, vv))
                if all(p is None for p in parts): continue
                def F(E, parts=parts):
                    g = []
                    for p in parts:
                        if p is None: continue
                        cond, vv = p
                        cq = [rewrite_nth(z3.simplify(z3.substitute(zb(x), (kap, inv(q))))) for x in cond]
                        vq = rewrite_nth(z3.simplify(z3.substitute(vv, (kap, inv(q)))))
                        body = z3.Select(E.v[n], q) == vq
                        g.append(z3.Implies(z3.And(*cq), body) if cq else body)
                    r = z3.ForAll([q], z3.Implies(zb(vis(E, q)), z3.And(*g)), patterns=[z3.Select(E.v[n], q)])
                    return r
                add_c(F, f'{n}: written by the iteration of its index ({arr})')
            return
        # case 2: write position moves with a counter that does not advance in every iteration
        for t in idx_terms:
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED or True:
                ds = [s2 for s2 in self.slots.values() if s2.sort == 'int' and s2.name in self.deltas and s2.h.num_args() == 0 and s2.h.decl().name() in consts_of(t)]
                if len(ds) == 1 and s.kind != 'member':
                    t0 = simp(z3.substitute(t, (ds[0].h, ds[0].e)))
                    if self.closed(zi(t0)) and self.closed(zi(simp(t - ds[0].h))):
                        off = simp(t - ds[0].h)
                        add_c(lambda E, dn=ds[0].name, t0=t0, off=off: z3.ForAll([q], z3.Implies(z3.Not(z3.And(zi(t0) <= q, q < zi(E.v[dn]) + zi(off))), z3.Select(E.v[n], q) == z3.Select(A0, q)), patterns=[z3.Select(E.v[n], q)]), f'{n}: only the prefix written')
                        if s.kind == 'live':
                            add_c(lambda E, dn=ds[0].name, t0=t0, off=off: z3.ForAll([q], z3.Implies(z3.And(zi(t0) <= q, q < zi(E.v[dn]) + zi(off)), z3.Select(E.v[n], q)), patterns=[z3.Select(E.v[n], q)]), f'{n}: prefix alive')
        # case 3: insertions at arbitrary keys, with a ghost array naming the iteration
        if s.kind == 'member' or s.kind == 'arr': self.scatter(s, benv, chains, add_c)
    def scatter(self, s, benv, chains, add_c):
        n = s.name; q = z3.Int('q!s'); kap = z3.Int('kap!'); gn = 'src:' + n; A0 = s.e
        ins = [(b, c) for b, c in zip(benv, chains) if c]
        if not ins or any(len(c) > 1 for _, c in ins): return
        alltrue = s.kind == 'member' and all(z3.is_true(c[0][1]) for _, c in ins); allfalse = s.kind == 'member' and all(z3.is_false(c[0][1]) for _, c in ins)
        if gn not in self.ghosth:
            w = self.hv(gn, lambda: fresh_arr('src')); self.ghosth[gn] = w; self.ghost0[gn] = z3.K(z3.IntSort(), z3.IntVal(-1))
            h = s.h
            def nxt(st, fr, v, n=n, h=h, w=w):
                c = self.store_chain(v[n], h) if v[n] is not None else None
                if not c: return w
                r = w
                for t, _ in c: r = z3.Store(r, t, self.k)
                return r
            self.ghostn[gn] = nxt
            for b in benv: b.g[gn] = nxt(b.st, b.fr, b.v)
        paths = []
        for b, c in ins:
            t, v = c[0]; al = {'kap!'}
            tk = self.subst(t, kap)
            if not self.closed(tk, al): return
            cond = [x for x in (self.subst(f, kap) for f in self.brs(b.st)) if self.closed(x, al)]
            vk = self.subst(v, kap)
            paths.append((tk, cond, vk if self.closed(vk, al) else None))
        if alltrue: add_c(lambda E: z3.ForAll([q], z3.Implies(z3.Select(A0, q), z3.Select(E.v[n], q)), patterns=[z3.Select(E.v[n], q)]), 'nothing removed')
        if allfalse: add_c(lambda E: z3.ForAll([q], z3.Implies(z3.Select(E.v[n], q), z3.Select(A0, q)), patterns=[z3.Select(E.v[n], q)]), 'nothing added')
        add_c(lambda E: z3.ForAll([q], z3.And(z3.Select(E.g[gn], q) >= -1, z3.Select(E.g[gn], q) < zi(E.k)), patterns=[z3.Select(E.g[gn], q)]), 'source iteration')
        add_c(lambda E: z3.ForAll([q], z3.Implies(z3.Select(E.g[gn], q) == -1, z3.Select(E.v[n], q) == z3.Select(A0, q)), patterns=[z3.Select(E.v[n], q)]), 'unchanged unless written')
        def back(E):
            w = z3.Select(E.g[gn], q); alts = []
            for tk, cond, vk in paths:
                f = [tk == q] + cond + ([z3.Select(s.h, q) == vk] if vk is not None else [])
                alts.append(z3.substitute(z3.And(*f), (kap, w)))
            return z3.ForAll([q], z3.Implies(w >= 0, z3.Or(*alts)), patterns=[z3.Select(E.v[n], q)])
        add_c(back, f'{n}: what was written, and by which iteration')
        # forward: every iteration has left its mark
        for tk, cond, vk in paths:
            var, inv, guard, _ = self.pick_index(z3.And(*(cond + [tk == tk, z3.Select(z3.Array('dummy!', z3.IntSort(), z3.IntSort()), tk) == 0])) if self.invert(tk, kap) else z3.And(*(cond + [tk == 0])), kap)
            def fwd(E, tk=tk, cond=cond, inv=inv, guard=guard):
                kk = inv(q); sb = lambda x: rewrite_nth(z3.simplify(z3.substitute(x, (kap, kk))))
                hit = z3.Select(E.v[n], sb(tk)) if alltrue else z3.Not(z3.Select(E.v[n], sb(tk))) if allfalse else z3.Select(E.g[gn], sb(tk)) >= kk
                body = z3.Implies(z3.And(0 <= kk, kk < zi(E.k), *[sb(x) for x in cond], *guard(q)), hit)
                P = pats(body, q)
                return z3.ForAll([q], body, patterns=P) if P else z3.ForAll([q], body)
            add_c(fwd, f'{n}: every iteration recorded')
    def array_opaque(self, s, benv, add_c):
        n = s.name; q = z3.Int('q!o'); A0 = s.e
        add_c(lambda E: z3.ForAll([q], z3.Select(E.v[n], q) == z3.Select(A0, q), patterns=[z3.Select(E.v[n], q)]), f'{n} unchanged')
        if s.kind == 'arr' and s.loc[0] == 'arr' and ('n', s.loc[1]) in self.M:
            add_c(lambda E: z3.ForAll([q], z3.Select(E.v[n], q) == z3.Select(A0, q + zi(E.k)), patterns=[z3.Select(E.v[n], q)]), f'{n} moved down by one in every iteration')
    # --------------------------------------------------------- texts
    def text_pieces(self, evs):
        """what one iteration writes, as a function of its number"""
        if not self.texts: return
        self.pieces = {}
        kapn = 'kap!'; kap = z3.Int(kapn)
        backs = [(e[1], e[2]) for e in evs if e[0] == 'back']
        for (loc, key), entry in self.texts.items():
            alts = []
            for s, f in backs:
                v = read_loc(s, f, loc)
                t = list(v.f[key].a); h = Text((('var', f'text{loc}{key}'),)).a
                if not t or not same(t[0], h[0]): raise Unsupported('text rewritten inside a loop')
                out = tuple(t[1:])
                cond = self.brs(s); alts.append((cond, out))
            pieces = []
            def mk(arr):
                ps = []
                for cond, out in alts:
                    cc = [self.subst(zb(c), kap, arr) for c in cond]; cc = [c for c in cc if self.closed(c, {kapn})]
                    oo = T.subst_atoms(out, lambda x: self.subst(x, kap, arr))
                    for nme in T.atoms_consts(oo):
                        if nme != kapn and BIRTH.get(nme, -1) >= self.birth: raise Unsupported('loop writes text that depends on earlier iterations')
                    ps.append((cc, oo))
                return ps
            ps = mk('entry')
            def piece(j, ps=ps):
                f = lambda x: z3.substitute(x, (kap, zi(j)))
                def build(i):
                    cc, oo = ps[i]
                    a = T.subst_atoms(oo, f)
                    if i == len(ps) - 1: return a
                    rest = build(i + 1)
                    if T.norm(a) == T.norm(rest) or (len(a) == len(rest) and all(same(x, y) for x, y in zip(a, rest))): return a
                    c = simp(z3.And(*[f(x) for x in cc])) if cc else True
                    if isinstance(c, bool): return a if c else rest
                    return (('if', c, a, rest),)
                return T.norm(build(0)) if ps else ()
            self.pieces[(loc, key)] = T.Fold(piece, f'loop@{self.line}')
    def check_texts(self, evs):
        """every iteration wrote exactly its piece"""
        bad = []
        for (loc, key), entry in self.texts.items():
            p = self.pieces[(loc, key)]
            for e in evs:
                if e[0] != 'back': continue
                v = read_loc(e[1], e[2], loc); a = v.f[key].a; hd = entry.a + (('fold', p, 0, self.k),)
                if len(a) < len(hd) or not all(same(x, y) for x, y in zip(a, hd)): bad.append('text rewritten'); continue
                ok, why = T.text_eq(e[1], a[len(hd):], p.piece(self.k))
                if not ok: bad.append(why or 'text differs')
        return bad
    # --------------------------------------------------------- main
    def run(self):
        ex = self.ex; self.birth0 = next(core._ctr)
        ex.quiet += 1
        try:
            evs = self.discover()
            if not any(e[0] == 'back' for e in evs) : self.inv = []
            else:
                self.inv = None
                for attempt in range(3):
                    C = self.candidates(evs)
                    if self.texts: self.text_pieces(evs)
                    for stage in sorted({c.stage for c in C} | {1}):       # later candidates rest on the surviving earlier ones
                        self.inv = self.houdini((self.inv or []) + [c for c in C if c.stage == stage])
                        if self.inv is None: break
                    if self.inv is not None: break
                    # a guessed value range was wrong: start again without it
                    self.pieces = {}
                    st, fr = self.header(); evs = self.body(st, fr)
                if self.inv is None: raise Unsupported('no inductive value ranges found')
                if self.again and self.inv:
                    # a position written was not in closed form: once more, from what is known by now
                    st, fr = self.header(self.inv); evs = self.body(st, fr); old = {c.why for c in self.inv}; keep = self.inv
                    C = [c for c in self.candidates(evs) if c.why not in old]
                    for stage in sorted({c.stage for c in C}):
                        r = self.houdini(self.inv + [c for c in C if c.stage == stage])
                        if r is None: self.inv = keep; break
                        self.inv = r
        finally: ex.quiet -= 1
        st, fr = self.header(self.inv)
        hdr = set(st.objs), {(o.id, k) for o in st.objs.values() for k, (v, _) in o.cells.items() if isinstance(v, Undef)}
        evs = self.body(st, fr)
        for loc, rd in self.lists:
            # list cursors were taken to be at the end exactly when past the last position
            for s, f in [(self.st0, self.fr0)] + [(e[1], e[2]) for e in evs if e[0] == 'back']:
                it = rd(s, f); n = zi(s.objs[it.store].n)
                if not prove(s, simp(z3.And(zb(it.isend) == (zi(it.pos) >= n), zi(it.pos) <= n, zi(it.pos) >= 0))).ok: raise Unsupported('list cursor of a loop')
        if not ex.quiet:
            for c in self.inv: ex.obls.append(mkobl(ex, f'loop invariant: {c.why}', self.line))
            bad = self.check_texts(evs) if self.texts else []
            for b in bad: raise Unsupported('output of a loop: ' + b)
        if not ex.quiet:
            from exec import reached
            st0, dead = hdr
            for e in evs:
                if e[0] != 'back': continue
                live = reached(e[1], [i for i in e[1].objs if i in st0], dead=dead)
                for o in e[1].objs.values():
                    if o.id not in st0 and o.kind == 'heap' and o.alive and o.mode in ('S', 'A') and o.id not in live: ex.leaks.append((f'storage allocated with {o.how} in a loop iteration is lost (line {self.line})', e[1]))
        self.terminate(evs)
        return [e for e in evs if e[0] != 'back']
    def houdini(self, C):
        ex = self.ex; E0 = self.env_entry(); live = []
        for c in C:
            try: f = c.f(E0)
            except Exception as x:
                if DEBUG: print('  cand error', c.why, repr(x))
                continue
            if prove(self.st0, simp(f), to=core.HOU_TO).ok: live.append(c)
            else:
                self.dropped.add(c.key)
                if DEBUG: print('  entry fails:', c.why)
                if self.rangefail(c): return None
        for rnd in range(16):
            st, fr = self.header(live); plain = set()
            evs = self.body(st, fr)
            bad = set()
            for e in evs:
                if e[0] != 'back': continue
                s, f = e[1], e[2]; E = self.env_back(s, f)
                for c in live:
                    if c in bad: continue
                    try: g = c.f(E)
                    except Exception as x:
                        if DEBUG: print('  cand error (back)', c.why, repr(x))
                        bad.add(c); continue
                    if DEBUG > 2: print('    ', c.why, '<=', [str(x) for x,_ in s.pc[self.npc:]], '|-', str(simp(g))[:900], prove(s, False).ok)
                    if not prove(s, simp(g), to=core.HOU_TO).ok:
                        bad.add(c)
                        if not has_quant(zb(simp(g))): plain.add(c)
                        if DEBUG: print('  not preserved:', c.why)
            if not bad:
                if DEBUG:
                    print(f'  loop@{self.line}: kept', [c.why for c in live])
                    if DEBUG > 1:
                        for c in live: print('      ', c.why, ':', str(z3.simplify(zb(c.f(self.env_header(st, fr)))))[:600])
                return live
            # a quantified candidate may only have failed for want of time among wrong simpler ones: those go first
            if plain and rnd < 10: bad = plain
            for c in bad:
                self.dropped.add(c.key)
                if self.rangefail(c): return None
            live = [c for c in live if c not in bad]
        raise Unsupported('no inductive invariant found within the rounds allowed')
    def rangefail(self, c):
        """candidates the header state itself relies on: if they fail the header must be weaker"""
        m = re.match(r'(.*) in range$', c.why)
        if not m: return False
        if m.group(1) == 'cursor': raise Unsupported('cursor leaves its container')
        nm = m.group(1)
        if nm in self.wide: return False
        s = self.slots.get(nm)
        if s is not None and s.size == 4 and nm not in getattr(self, 'unsig', ()) :
            self.unsig = getattr(self, 'unsig', set()) | {nm}
        else: self.wide.add(nm)
        if DEBUG: print('  range guess wrong for', nm)
        return True
    def terminate(self, evs):
        ex = self.ex
        backs = [(e[1], e[2]) for e in evs if e[0] == 'back']
        if not backs or ex.quiet: return
        benv = [self.env_back(s, f) for s, f in backs]
        cands = []
        names = {s.h.decl().name() for s in self.slots.values() if s.h.num_args() == 0}
        for s in self.slots.values():
            if s.sort == 'rank': cands.append(CARD(s.kind) - s.h)
            if isinstance(s.kind, tuple) and s.kind[0] == 'key':    # elements of the set at entry from the iterator on
                m0, end = self.st0.objs[s.kind[1]].member, self.slots.get(s.name[:-4] + '.end')
                if end is not None and m0 is not None: cands.append(z3.If(end.h, 0, CARD(m0) - RANK(m0, s.h)))
            if s.name.endswith('.pos') and s.loc[0] == 'cell':      # input left, and the reading has not failed yet
                r = read_loc(self.hst, self.hfr, s.loc); cands += [r.src.n - s.h, r.src.n - s.h + z3.If(zb(r.failb), 0, 1)]
        for s, f in backs:
            for c in self.brs(s):
                for a, b in int_atoms(c):
                    if (consts_of(a) | consts_of(b)) & names: cands += [simp(b - a), simp(a - b)]
        for s in self.slots.values():
            if s.sort == 'int': cands += [s.h]
            if s.sort == 'array' and s.kind == 'member': cands.append(CARD(s.h))
        seen = set()
        for V in cands:
            if isinstance(V, int) or V.get_id() in seen: continue
            seen.add(V.get_id())
            if not self.closed(V, names): continue
            ok = True
            for b in benv:
                try: V2 = self.inst(V, b)
                except Exception: ok = False; break
                if not prove(b.st, simp(z3.And(V >= 0, V2 < V)), to=2000).ok: ok = False; break
            if ok:
                ex.obls.append(mkobl(ex, 'loop terminates', self.line)); return
        ex.obls.append(mkobl(ex, 'loop terminates', self.line, False))
        if DEBUG: print('  no termination measure for loop@', self.line)
DEBUG = int(os.environ.get('VF_DEBUG', '0'))
def mkobl(ex, name, line, ok=True):
    from exec import Obl
    return Obl(ex.fnname, name, 'loop', line, Proof(ok, 'z3' if ok else 'z3', None if ok else 'no decreasing measure found'))
def subterms(t):
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop(0)
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
        if z3.is_quantifier(x): continue
        st += x.children()
    return out
def is_const(t): return z3.is_app(t) and t.num_args() == 0
def unwrapped(t, dep=0):
    """a conditional term (a result reduced modulo the word size) and its alternatives"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and dep < 2: return unwrapped(t.arg(1), dep + 1) + unwrapped(t.arg(2), dep + 1)
    return [t]
def int_atoms(f):
    out = []
    for a, b in int_atoms0(f):
        for x in unwrapped(a):
            for y in unwrapped(b): out.append((x, y))
    return out
def int_atoms0(f):
    out = []
    for x in subterms(f):
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and x.num_args() == 2 and x.arg(0).sort() == z3.IntSort():
            out.append((x.arg(0), x.arg(1)))
    return out
def has_sel(t, names): return False
def rewrite_nth(t):
    """nth(m, rank(m, q)) is q (q is a member wherever this is used)"""
    pairs = []
    for x in subterms(t):
        if is_app(x, 'nth') and is_app(x.arg(1), 'rank') and x.arg(1).arg(0).eq(x.arg(0)): pairs.append((x, x.arg(1).arg(1)))
    return z3.simplify(z3.substitute(t, *pairs)) if pairs else t
def pats(body, q):
    """trigger terms: array reads at q"""
    for x in subterms(body):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).eq(q) and x.arg(0).num_args() == 0: return [x]
    for x in subterms(body):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and any(y.eq(q) for y in x.children()): return [x]
    for x in subterms(body):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and q.decl().name() in consts_of(x.arg(1)) and x.arg(0).num_args() == 0 and z3.is_app(x.arg(1)) and x.arg(1).num_args() <= 2 and x.arg(1).decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED): return [x]
    return None

import re
PEEL = re.compile(r'left over from an earlier|pointer to structures changed|branch on a leftover')
def process(ex, fn, L, st, fr, prev, peel=True):
    ex.loopdepth += 1
    try:
        if ex.loopdepth > 4: raise Unsupported('loops nested too deeply')
        mark = len(ex.obls), len(ex.leaks), st.copy(), fr.copy()
        try: return Loop(ex, fn, L, st, fr, prev).run()
        except Unsupported as u:
            if not peel or not PEEL.search(str(u)): raise
            del ex.obls[mark[0]:]; del ex.leaks[mark[1]:]
        # a variable whose first value is of another kind than the later ones: the first iteration on its own
        st, fr = mark[2:]; lp = Loop(ex, fn, L, st, fr, prev); out = []
        for e in ex.region(fn, [(lp.hdr, lp.nphi, 'hdr', st, fr)], L):
            if e[0] == 'back': out += process(ex, fn, L, e[1], e[2], e[3], False)
            else: out.append(e)
        return out
    finally: ex.loopdepth -= 1
