"""What a contract file uses: pre-states, running a wrapper of the real code, and post-conditions."""
from core import *
from exec import *
from models import H, ret, dead, thr, new_nodes, card_facts, enum_facts, freeze, named, DEFAULT, CSIZE
import core, models, streams, seqs, inputs, loops, text as T, time, json

CONTRACTS = []
def tobool(v): return Exec.tobool(None, v)
def contract(fn, name=None, cases=None, **kw):
    """register a contract for wrapper fn; cases: list of labels, one task each"""
    def deco(g):
        for cs in (cases or [None]):
            CONTRACTS.append(dict(fn=fn, name=(name or g.__name__) + ('' if cs is None else f'[{cs}]'), case=cs, g=g, kw=kw))
        return g
    return deco

class Ctx:
    def __init__(self, mod, con):
        self.mod = mod; self.con = con; self.case = con['case']; self.fn = con['fn']
        self.ex = Exec(mod, H, con['name']); self.exits = {}; self.reach = 0; self.wit = None; self.notes = []
    # ---- building the pre-state
    def state(self): return State()
    def obj(self, st, size=None, name='', mode='S', kind='param'):
        o = new_obj(st, mode, kind, name); o.size = size; return Ptr(o.id, None if mode == 'S' else 0, 0)
    def op(self, st, kind, name='x'):
        """a reference to an arbitrary element; returns (pointer, term)"""
        if kind[0] == 'i':
            w = int(kind[1:]); t = fresh_int(name, 0, (1 << w) - 1); o = new_obj(st, 'S', 'param', name); o.size = w // 8; o.cells[0] = (t, w // 8); st.assume(z3.And(t >= 0, t < 1 << w)); return Ptr(o.id), t
        t = fresh_int(name); o = new_obj(st, 'S', 'param', name); o.size = SIZES['vf::' + kind]; o.cells[0] = (Op(kind, t), o.size)
        return Ptr(o.id), t
    def raw(self, st, size, name='raw'): 
        o = new_obj(st, 'S', 'param', name); o.size = size; return Ptr(o.id)
    def out(self, st): 
        o = new_obj(st, 'S', 'param', 'out'); new = Ptr(o.id); streams.new_stream(st, new, text=Text((('var', 'before'),))); return new
    def cell(self, st, p, off=0): return st.objs[p.obj].cells[p.off + off][0]
    def quiet_run(self, st, fn, args):
        """the single normal outcome of a real function used to build a pre-state"""
        self.ex.quiet += 1
        try: outs = self.ex.call(st, fn, args)
        finally: self.ex.quiet -= 1
        outs = [o for o in outs if o.kind == 'ret' and feasible(o.st)]
        if len(outs) != 1: raise Unsupported(f'{fn}: {len(outs)} normal outcomes while building a state {self.ex.lastfail}')
        return outs[0].st, outs[0].val
    # ---- running and proving
    def run(self, st, args, fn=None):
        fn = fn or self.fn
        if fn not in self.ex.funcs: raise Unsupported(f'wrapper {fn} is missing')
        outs = self.ex.call(st, fn, args)
        res = []
        for o in outs:
            if not feasible(o.st): continue
            self.exits[o.kind] = self.exits.get(o.kind, 0) + 1
            res.append(o)
        return res
    def prove(self, st, goal, name, kind='post'):
        if isinstance(goal, z3.ExprRef): goal = simp(goal)
        p = prove(st, goal)
        self.ex.obls.append(Obl(self.con['name'], name, kind, None, p, st, goal))
        return p.ok
    def fails(self, st, name, kind='post'):
        """obligation: this point is unreachable"""
        p = prove(st, False)
        self.ex.obls.append(Obl(self.con['name'], name, kind, None, p, st, False)); return p.ok
    def induct(self, st, P, lo, hi, name, down=False, pat=None):
        """P(q) for all lo <= q < hi, by induction (downwards from hi-1); both cases are obligations"""
        q = fresh_int('q'); r = z3.And(zi(lo) <= q, q < zi(hi))
        s = st.copy(); s.assume(z3.And(r, q == (zi(hi) - 1 if down else zi(lo)))); ok = self.prove(s, P(q), f'lemma {name}: base case', 'lemma')
        s = st.copy(); m = q + 1 if down else q - 1; s.assume(z3.And(r, zi(lo) <= m, m < zi(hi), P(m))); ok = self.prove(s, P(q), f'lemma {name}: induction step', 'lemma') and ok
        x = z3.Int('x!ind')
        if ok: st.assume(z3.ForAll([x], z3.Implies(z3.And(zi(lo) <= x, x < zi(hi)), P(x)), patterns=[pat(x)]) if pat else z3.ForAll([x], z3.Implies(z3.And(zi(lo) <= x, x < zi(hi)), P(x))))
        return ok
    def same_text(self, st, A, B, name):
        A, B = (x.a if isinstance(x, Text) else x for x in (A, B))
        ok, why = T.text_eq(st, A, B)
        self.ex.obls.append(Obl(self.con['name'], name, 'post', None, Proof(ok, 'z3', why), st, f'{A} == {B}'))
        return ok
    def check(self, cond, name, why=None, st=None):
        """structural obligation decided by the executor"""
        if not cond and st is not None and not feasible_full(st): cond = True
        self.ex.obls.append(Obl(self.con['name'], name, 'post', None, Proof(bool(cond), 'executor', why), None, why or name)); return bool(cond)
    def returns(self, outs, what='returns normally'):
        """outcomes that return; every other outcome must be unreachable"""
        r = []
        for o in outs:
            if o.kind == 'ret': r.append(o); self.check(True, what)
            else: self.fails(o.st, f'{what} (reached {o.kind} {o.val.ti if isinstance(o.val, Exc) else o.val or ""})')
        if not r: self.check(False, what + ': some execution returns')
        return r
    def throws(self, outs, ti=None, what='reports the misuse'):
        """every outcome must be an exception (of type ti or derived)"""
        r = []
        for o in outs:
            if o.kind == 'throw' and (ti is None or any(self.ex.derives(o.val.ti, x) for x in ([ti] if isinstance(ti, str) else ti))): r.append(o); self.check(True, what); continue
            self.fails(o.st, f'{what} (reached {o.kind} {o.val.ti if isinstance(o.val, Exc) else ""})')
        if not r: self.check(False, what + ': some execution throws')
        return r
    def noleak(self, st, roots=(), name='no storage leaked', ignore=()):
        """every live allocation is reachable from the parameters and roots"""
        for desc, s2 in self.ex.leaks:
            if feasible_full(s2): self.ex.obls.append(Obl(self.con['name'], name, 'memory', None, Proof(False, 'executor', desc), None, name)); return False
        seen = reached(st, [o.id for o in st.objs.values() if o.kind in ('param', 'global', 'stack', 'ext', 'cstr', 'exc') or o.mode == 'N'], roots, ignore)
        for o in st.objs.values():
            if o.kind == 'heap' and o.alive and o.id not in seen and o.mode in ('S', 'A'):
                self.ex.obls.append(Obl(self.con['name'], name, 'memory', None, Proof(False, 'executor', f'{o} allocated with {o.how} is lost') if feasible_full(st) else Proof(True, 'z3'), None, name)); return False
        self.ex.obls.append(Obl(self.con['name'], name, 'memory', None, Proof(True, 'executor'))); return True

def run_contract(mod, con, deadline=None):
    t0 = time.time(); core.STATS.__init__()
    c = Ctx(mod, con); c.ex.deadline = t0 + deadline if deadline else None
    res = dict(name=con['name'], fn=con['fn'], unsupported=None, error=None)
    try: con['g'](c)
    except Unsupported as u: res['unsupported'] = str(u)
    except z3.Z3Exception as u:
        import traceback
        res['unsupported'] = f'solver: {u}'; res['error'] = traceback.format_exc()[-2500:]
    except RecursionError: res['unsupported'] = 'recursion limit of the verifier'
    except Exception as x:
        import traceback
        res['unsupported'] = f'verifier error: {x!r}'; res['error'] = traceback.format_exc()[-2500:]
    if res['unsupported'] is None and not c.ex.obls: res['unsupported'] = 'no obligation generated'
    res['obls'] = [dict(name=o.name, kind=o.kind, line=o.line, ok=o.ok, by=o.by, why=str(o.why) if o.why else None, model=o.model, goal=o.goal) for o in c.ex.obls]
    res['exits'] = c.exits; res['executed'] = sorted(mod['funcs'][n]['dem'] for n in c.ex.executed); res['externals'] = sorted(c.ex.externals)
    res['time'] = time.time() - t0; res['solver_time'] = core.STATS.time; res['queries'] = core.STATS.queries; res['cvc5'] = core.STATS.cvc5
    return res
