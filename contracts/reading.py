"""What a delimited list is: ghost positions of the elements in the characters of a stream."""
from api import *
from inputs import *
S = z3.Select
class Lists:
    """the reading of src from position p0 as a list of ty between op and cl, separated by sep"""
    def __init__(self, st, src, ty, p0, op, cl, sep):
        self.src = src; self.ty = ty; self.sep = zi(sep); self.cl = zi(cl); W, N, ch = src.W, src.n, src.ch
        self.P = src.fn(f'element position {ty}', z3.IntSort()); k = z3.Int('k!g'); self.o = W(p0); self.P0 = self.o + 1
        src.know_ws(st, p0); st.assume(src.ws_all()); st.assume(src.el_all(ty)); st.assume(z3.And(p0 >= 0, p0 <= N))
        st.assume(self.P(0) == W(self.P0)); st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, self.more(k)), self.P(k + 1) == W(self.D(k) + 1)), patterns=[src.ok(ty, self.P(k))]))
        self.m = fresh_int('last', 0, 1 << 60); st.assume(z3.And(self.m >= 0, self.m < 1 << 60, z3.Not(self.more(self.m)))); st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.m), self.more(k)), patterns=[src.ok(ty, self.P(k))]))
        # every element takes at least one character, so positions of elements grow and there is a last one
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= self.m), z3.And(self.P(k) > k, self.P(k) <= N)), patterns=[self.P(k)]))
        a = W(self.P0); self.opened = z3.And(self.o < N, ch(self.o) == op); self.none = z3.And(self.opened, a < N, ch(a) == cl); self.a = a
        self.some = z3.And(self.opened, z3.Not(self.none), self.okk(self.m), self.D(self.m) < N, ch(self.D(self.m)) == cl)
        self.accept = z3.Or(self.none, self.some); self.count = z3.If(self.none, 0, self.m + 1); self.end = z3.If(self.none, a, self.D(self.m)) + 1
    def okk(self, k): return z3.And(self.P(k) < self.src.n, self.src.ok(self.ty, self.P(k)))
    def D(self, k): return self.src.W(self.src.end(self.ty, self.P(k)))
    def sepd(self, k): return z3.And(self.D(k) < self.src.n, self.src.ch(self.D(k)) == self.sep)
    def more(self, k): return z3.And(self.okk(k), self.sepd(k))
    def enc(self, v): return v % (1 << INTT[self.ty][0]) if self.ty in INTT else v
    def elem(self, k): return self.src.val(self.ty, self.P(zi(k)))
    def hint(self, stream):
        """candidate invariants of a loop that reads one element per iteration"""
        def h(L, add):
            names = [n for n, u in L.slots.items() if n.endswith('.pos') and u.loc[0] == 'cell' and (stream is None or u.loc[1] == stream)]
            if not names: return
            key = names[0][:-3]; u = L.slots[names[0]]; r0 = L.st0.objs[u.loc[1]].cells[u.loc[2]][0]
            if r0.src is not self.src: return
            def v(E, f): return E.v[key + f] if key + f in L.slots else (zb if f != 'pos' else zi)(r0.f[f])
            good = lambda E: z3.Not(z3.Or(v(E, 'eof'), v(E, 'failb'), v(E, 'badb'))); N = self.src.n; q = z3.Int('q!h'); pos = lambda E: zi(v(E, 'pos'))
            add(lambda E: z3.And(pos(E) >= 0, pos(E) <= N), 'position within the input'); add(lambda E: z3.Not(v(E, 'badb')), 'stream not bad'); add(lambda E: z3.Implies(v(E, 'failb'), v(E, 'eof')), 'fails only at the end of the input')
            add(lambda E: z3.Implies(v(E, 'failb'), pos(E) == N), 'fails only at the end')
            ch1 = [u for u in L.slots.values() if u.sort == 'int' and u.size == 1]; ns = [u for u in L.slots.values() if u.loc[0] == 'n']
            for sh in (0, 1):
                # the loop is reached before (0) or after (1) the first element was read
                if prove(L.st0, self.src.W(zi(r0.pos)) == self.P(0), to=2000).ok != (sh == 0): continue
                kk = lambda E, sh=sh: zi(E.k) + sh
                add(lambda E, kk=kk: z3.Implies(z3.And(kk(E) >= 1, good(E)), pos(E) == self.D(kk(E) - 1) + 1), 'position after the separator')
                add(lambda E, kk=kk: z3.Implies(z3.And(kk(E) >= 1, z3.Not(good(E))), self.D(kk(E) - 1) == N), 'input ends after the element')
                add(lambda E, kk=kk: z3.Implies(kk(E) == 0, self.src.W(pos(E)) == self.P(0)), 'position of the first element')
                add(lambda E, kk=kk: z3.Implies(kk(E) == 0, good(E)), 'good at the start')
                add(lambda E, kk=kk: z3.Implies(kk(E) >= 1, self.okk(kk(E) - 1)), 'last element readable'); add(lambda E, kk=kk: kk(E) <= self.m + 1, 'at most the separated elements'); add(lambda E, kk=kk: z3.Implies(kk(E) >= 2, self.sepd(kk(E) - 2)), 'last separator'); add(lambda E, kk=kk: z3.Implies(kk(E) >= 1, self.sepd(kk(E) - 1)), 'every element so far is followed by a separator')
                for u in ch1:
                    add(lambda E, kk=kk, u=u: z3.Implies(z3.And(kk(E) >= 1, good(E)), zi(E.v[u.name]) == self.src.ch(self.D(kk(E) - 1))), 'character after the element')
                    add(lambda E, kk=kk, u=u: z3.Implies(kk(E) == 0, zi(E.v[u.name]) == self.sep), 'separator at the start'); add(lambda E, u=u: z3.Implies(z3.Not(good(E)), zi(E.v[u.name]) == self.sep), 'last character read is a separator')
                for n in ns:
                    add(lambda E, kk=kk, n=n: zi(E.v[n.name]) == kk(E), 'elements read so far')
                    for u in L.slots.values():
                        if u.sort == 'array' and u.loc[0] == 'arr' and u.loc[1] == n.loc[1]: add(lambda E, kk=kk, u=u: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < kk(E)), S(E.v[u.name], q) == self.enc(self.elem(q))), patterns=[S(E.v[u.name], q)]), 'elements read so far')
        h.drop = 'guard bound|captured earlier|initially|holds what iteration|not assigned since|every earlier iteration|written by'; return h
