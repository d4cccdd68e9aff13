"""Output texts: sequences of atoms, and equality of texts under path facts.
Atoms: ('lit', s)  ('op', kind, term)  ('int', term)  ('char', term)  ('bool', cond, alpha)  ('flt', term)  ('ptr', x)
       ('var', name)                      unknown text
       ('if', cond, atoms, atoms)
       ('fold', fold, lo, hi)             concatenation of fold.piece(j) for lo <= j < hi
       ('fn', name, args)                 text written by an external writer for these arguments"""
from core import *
import core

class Fold:
    """piece(j): atoms of the j-th step, a python function of an Int term"""
    def __init__(self, piece, name='fold'): self.piece = piece; self.name = name
    def __repr__(self): return self.name
def lit(s): return ('lit', s)
def norm(atoms):
    out = []
    for a in atoms:
        if a[0] == 'lit':
            if not a[1]: continue
            if out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + a[1]); continue
        if a[0] == 'char' and isinstance(a[1], int):
            c = chr(a[1] % 256)
            if out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + c)
            else: out.append(('lit', c))
            continue
        if a[0] == 'fold' and same(a[2], a[3]): continue
        if a[0] == 'if':
            c = simp(a[1]) if not isinstance(a[1], bool) else a[1]
            if isinstance(c, bool):
                r = norm(list(out) + list(a[2] if c else a[3])); out = list(r); continue
        out.append(a)
    return tuple(out)
def subst_atoms(atoms, f):
    """apply a term substitution f to every term of the atoms"""
    def g(x): return f(x) if isinstance(x, z3.ExprRef) else x
    out = []
    for a in atoms:
        k = a[0]
        if k == 'if': out.append(('if', g(a[1]), subst_atoms(a[2], f), subst_atoms(a[3], f)))
        elif k == 'fold':
            fo = a[1]; fo2 = Fold((lambda fo: lambda j: subst_atoms(fo.piece(j), f))(fo), fo.name)
            out.append(('fold', fo2, g(a[2]), g(a[3])))
        elif k == 'fn': out.append(('fn', a[1], tuple(g(x) for x in a[2])))
        else: out.append(tuple(g(x) for x in a))
    return tuple(out)
def atoms_consts(atoms, acc=None):
    if acc is None: acc = set()
    for a in atoms:
        for x in a[1:]:
            if isinstance(x, z3.ExprRef): consts_of(x, acc, set())
            elif isinstance(x, tuple) and x and isinstance(x[0], tuple): atoms_consts(x, acc)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, z3.ExprRef): consts_of(y, acc, set())
            elif isinstance(x, Fold): atoms_consts(x.piece(z3.Int('j!probe')), acc)
    return acc

class TextEq:
    def __init__(self, st, budget=400): self.st = st; self.budget = budget; self.why = None; self.proofs = 0
    def holds(self, st, c):
        if isinstance(c, bool): return c
        self.proofs += 1
        return prove(st, c, to=3000).ok
    def eq(self, A, B, st=None, depth=0):
        st = st or self.st
        A, B = list(norm(A)), list(norm(B))
        while True:
            self.budget -= 1
            if self.budget < 0: self.why = 'text comparison budget'; return False
            A, B = list(norm(A)), list(norm(B))
            if not A and not B: return True
            # remaining folds may be empty
            if not A or not B:
                X = A or B
                x = X[0]
                if x[0] == 'fold' and self.holds(st, le_t(x[3], x[2])): X.pop(0); A, B = (X, []) if A else ([], X); continue
                if x[0] == 'if': return self.split(x[1], A, B, st, depth)
                if not feasible_full(st): return True
                if x[0] == 'fold': return self.fold_emptysplit(A, B, st, depth)
                self.why = f'extra output {X[:3]}'; return False
            a, b = A[0], B[0]
            if same(a, b): A.pop(0); B.pop(0); continue
            if a[0] == 'if': return self.split(a[1], A, B, st, depth)
            if b[0] == 'if': return self.split(b[1], A, B, st, depth)
            if a[0] == 'lit' and b[0] == 'lit':
                n = min(len(a[1]), len(b[1]))
                if a[1][:n] != b[1][:n]:
                    if not feasible_full(st): return True
                    self.why = f'writes {a[1][:20]!r} instead of {b[1][:20]!r}'; return False
                A[0] = ('lit', a[1][n:]); B[0] = ('lit', b[1][n:]); continue
            if a[0] == 'fold' and b[0] == 'fold':
                r = self.fold_fold(A, B, st, depth)
                return r
            if a[0] == 'fold' or b[0] == 'fold':
                return self.fold_emptysplit(A, B, st, depth)
            if a[0] == 'char' and b[0] == 'lit' or a[0] == 'lit' and b[0] == 'char':
                c, l = (a, b) if a[0] == 'char' else (b, a)
                if self.holds(st, eq_t(c[1], ord(l[1][0]))):
                    if a[0] == 'char': A.pop(0); B[0] = ('lit', l[1][1:])
                    else: B.pop(0); A[0] = ('lit', l[1][1:])
                    continue
                if not feasible_full(st): return True
                self.why = f'{a} vs {b}'; return False
            if a[0] == b[0] and len(a) == len(b) and a[0] != 'var':
                gs = []; ok = True
                for x, y in zip(a[1:], b[1:]):
                    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): ps = list(zip(x, y))
                    else: ps = [(x, y)]
                    for u, v in ps:
                        if same(u, v): continue
                        if isinstance(u, (int, z3.ExprRef)) and isinstance(v, (int, z3.ExprRef)) :
                            if isinstance(u, (bool, z3.BoolRef)) or isinstance(v, (bool, z3.BoolRef)): gs.append(simp(zb(u) == zb(v)))
                            else: gs.append(simp(zi(u) == zi(v)))
                        else: ok = False
                if ok and self.holds(st, And(*gs)): A.pop(0); B.pop(0); continue
            if not feasible_full(st): return True
            self.why = f'writes {str(a)[:160]} instead of {str(b)[:160]}'; return False
    def split(self, c, A, B, st, depth):
        if depth > 12: self.why = 'text split depth'; return False
        def sel(X, v, c=c):
            out = []
            for x in X:
                if x[0] == 'if' and same(x[1], c): out += list(x[2] if v else x[3])
                else: out.append(x)
            return out
        for v, f in ((True, c), (False, Not(c))):
            if feasible_full(st, f):
                s = st.copy(); s.assume(f)
                if not self.eq(sel(A, v), sel(B, v), s, depth + 1): return False
        return True
    def fold_emptysplit(self, A, B, st, depth):
        """unfold the first step of a leading fold"""
        if depth > 12: self.why = 'text unfold depth'; return False
        X, Y, sw = (A, B, False) if A and A[0][0] == 'fold' else (B, A, True)
        _, fo, lo, hi = X[0]
        e = le_t(hi, lo)
        for c in (e, Not(e)):
            if c is False or not feasible_full(st, c): continue
            s = st.copy(); s.assume(c)
            X2 = X[1:] if c is e else list(fo.piece(zi(lo))) + [('fold', fo, add(lo, 1), hi)] + X[1:]
            if not (self.eq(X2, Y, s, depth + 1) if not sw else self.eq(Y, X2, s, depth + 1)): return False
        return True
    def fold_fold(self, A, B, st, depth):
        _, fa, la, ha = A[0]; _, fb, lb, hb = B[0]
        # same number of steps, equal pieces step by step
        if fa is fb and self.holds(st, And(eq_t(la, lb), eq_t(ha, hb))): return self.eq(A[1:], B[1:], st, depth)
        if depth <= 12 and self.holds(st, eq_t(sub(ha, la), sub(hb, lb))):
            j = fresh_int('j'); s = st.copy(); s.assume(z3.And(j >= zi(la), j < zi(ha)))
            jb = add(j, sub(lb, la))
            t = TextEq(s, self.budget)
            if t.eq(fa.piece(j), fb.piece(zi(jb)), s, depth + 1): return self.eq(A[1:], B[1:], st, depth)
            self.why = t.why
        if depth <= 12 and self.holds(st, eq_t(sub(ha, la), sub(hb, lb))):
            # one side runs ahead by a pending text D(j): D(j) P(j) == Q(j) D(j+1), D empty at both ends
            j = fresh_int('j'); s = st.copy(); s.assume(z3.And(j >= zi(la), j < zi(ha)))
            jb = add(j, sub(lb, la)); P, Q = fa.piece(j), fb.piece(zi(jb))
            for ahead in ('a', 'b'):
                for X in self.pending(P, Q):
                    D = lambda t: (('if', And(lt_t(la, t), lt_t(t, ha)), X, ()),)
                    t = TextEq(s, 200)
                    if ahead == 'a': ok = t.eq(D(j) + tuple(P), tuple(Q) + D(add(j, 1)), s, depth + 1)
                    else: ok = t.eq(tuple(P) + D(add(j, 1)), D(j) + tuple(Q), s, depth + 1)
                    if ok: return self.eq(A[1:], B[1:], st, depth)
                    # still ahead at the end: what is pending precedes the rest
                    D = lambda t: (('if', lt_t(la, t), X, ()),); t = TextEq(s, 200)
                    if ahead == 'a': ok = t.eq(D(j) + tuple(P), tuple(Q) + D(add(j, 1)), s, depth + 1)
                    else: ok = t.eq(tuple(P) + D(add(j, 1)), D(j) + tuple(Q), s, depth + 1)
                    if ok: return self.eq(list(D(ha)) + A[1:], B[1:], st, depth + 1) if ahead == 'a' else self.eq(A[1:], list(D(ha)) + B[1:], st, depth + 1)
        # lengths differ by one: unfold the last or the first step of the longer one
        if depth <= 4:
            w = self.why
            for X, Y, sw in ((B, A, True), (A, B, False)):
                if len(Y) > 1 and self.holds(st, eq_t(add(sub(Y[0][3], Y[0][2]), 1), sub(X[0][3], X[0][2]))):
                    _, fo, lo, hi = X[0]; l = sub(hi, 1); X2 = [('fold', fo, lo, l)] + list(fo.piece(zi(l))) + list(X[1:])
                    if (self.eq(Y, X2, st, depth + 5) if sw else self.eq(X2, Y, st, depth + 5)): return True
                    self.why = w
        if depth <= 6:
            if self.holds(st, eq_t(add(sub(ha, la), 1), sub(hb, lb))): return self.unfold_first(B, A, st, depth, True)
            if self.holds(st, eq_t(sub(ha, la), add(sub(hb, lb), 1))): return self.unfold_first(A, B, st, depth, False)
            e = Or(le_t(ha, la), le_t(hb, lb))
            if e is not False and feasible_full(st, e) and feasible_full(st, Not(e)):
                for c in (e, Not(e)):
                    s = st.copy(); s.assume(c)
                    X = A[1:] if self.holds(s, le_t(ha, la)) else A; Y = B[1:] if self.holds(s, le_t(hb, lb)) else B
                    if not self.eq(X, Y, s, depth + 3): return False
                return True
        self.why = self.why or 'different repetitions'
        return False
    def pending(self, P, Q):
        out = []
        for R in (P, Q):
            for a in R:
                if a[0] == 'if': out += [x for x in (a[2], a[3]) if x]
                elif a[0] in ('lit', 'char'): out.append((a,))
        u = []
        for x in out:
            x = norm(x)
            if x and not any(same(x, y) for y in u): u.append(x)
        return u[:8]
    def unfold_first(self, X, Y, st, depth, sw):
        _, fo, lo, hi = X[0]
        X2 = list(fo.piece(zi(lo))) + [('fold', fo, add(lo, 1), hi)] + list(X[1:])
        return self.eq(X2, Y, st, depth + 4) if not sw else self.eq(Y, X2, st, depth + 4)
def text_eq(st, A, B):
    t = TextEq(st)
    r = t.eq(A, B)
    return r, t.why
