"""Maps: keys and values of an arbitrary map, for an arbitrary key q."""
from api import *
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import seqs
from nodesets import *
HARNESS = ['C12.cpp']
ASSUMPTIONS = ['the keys are strictly totally ordered']
N = z3.Not
class X: pass
def mapping(c, st, name='a', val='V', kind='map'):
    x = X(); x.p, x.m, x.V = nodes(c, st, kind, name, 'K', val); x.kind = kind; x.val = val; return x
def view(c, st, p, val='V', what='the map exists'):
    """(membership, values) of a map; an empty one may have no values yet"""
    o = store(c, st, p, what)
    if o is None: return None
    f = o.fields.get(SIZES['vf::K'])
    if f is None: return o.member, None
    if not c.check(f.kind == 'op:' + val and len(o.fields) == 1, 'values of its type'): return None
    return o.member, f.arr
def becomes(c, st, p, want, value, val='V', name='exactly the associations of the result'):
    """for an arbitrary key: present exactly when want(q), and then with the value value(q)"""
    r = view(c, st, p, val)
    if r is None: return
    m, V = r; q = fresh_int('q'); w = want(q); c.prove(st, S(m, q) == w, name + ': keys')
    if V is None: c.prove(st, N(w), name + ': values')
    else: c.prove(st, z3.Implies(w, S(V, q) == value(q)), name + ': values')
def same_map(c, st, x, what='the map is unchanged'): becomes(c, st, x.p, lambda q: S(x.m, q), lambda q: S(x.V, q), x.val, what)
def refers(c, o, x, k, what):
    if c.check(isinstance(o.val, Ptr) and o.val.obj == o.st.objs[x.p.obj].cells[0][0].store and o.val.off == SIZES['vf::K'] and o.val.idx is not None, what + ': refers to a value of the map'): c.prove(o.st, zi(o.val.idx) == zi(k), what + ': of this key')
# ---------------------------------------------------------------- lookup
for w in ('vf_index_const', 'vf_get', 'vf_value', 'vf_value_const'):
    @contract(w, w[3:], cases=['present', 'absent'])
    def lookup(c):
        st = c.state(); a = mapping(c, st); p, k = c.op(st, 'K', 'k'); st.assume(S(a.m, k) == (c.case == 'present')); outs = c.run(st, [a.p, p])
        if c.case == 'absent':
            for o in c.throws(outs, what='an absent key is an error'): same_map(c, o.st, a); c.noleak(o.st)
            return
        for o in c.returns(outs): refers(c, o, a, k, 'lookup'); same_map(c, o.st, a); c.noleak(o.st)
@contract('vf_has_key')
def has_key(c):
    st = c.state(); a = mapping(c, st); p, k = c.op(st, 'K', 'k')
    for o in c.returns(c.run(st, [a.p, p])): c.prove(o.st, zb(tobool(o.val)) == S(a.m, k), 'true exactly for the keys'); same_map(c, o.st, a); c.noleak(o.st)
DEF = lambda: models.DEFAULT('E') if hasattr(models, 'DEFAULT') else seqs.DEFAULT('E')
@contract('vf_index', cases=['present', 'absent'])
def index(c):
    st = c.state(); a = mapping(c, st, 'a', 'E'); p, k = c.op(st, 'K', 'k'); st.assume(S(a.m, k) == (c.case == 'present'))
    for o in c.returns(c.run(st, [a.p, p])):
        refers(c, o, a, k, 'lookup')
        if c.case == 'present': same_map(c, o.st, a)
        else: becomes(c, o.st, a.p, lambda q: z3.Or(S(a.m, q), q == k), lambda q: z3.If(q == k, DEF(), S(a.V, q)), 'E', 'a default value for the new key and nothing else')
        c.noleak(o.st)
@contract('vf_assign', cases=['present', 'absent'])
def assign(c):
    st = c.state(); a = mapping(c, st, 'a', 'E'); p, k = c.op(st, 'K', 'k'); xp, x = c.op(st, 'E', 'x'); st.assume(S(a.m, k) == (c.case == 'present'))
    for o in c.returns(c.run(st, [a.p, p, xp])): becomes(c, o.st, a.p, lambda q: z3.Or(S(a.m, q), q == k), lambda q: z3.If(q == k, x, S(a.V, q)), 'E', 'the value of this key and nothing else'); c.noleak(o.st)
@contract('vf_assign_own', cases=['present', 'absent'])
def assign_own(c):
    st = c.state(); a = mapping(c, st, 'a', 'E'); p, k = c.op(st, 'K', 'k'); lp, l = c.op(st, 'K', 'l'); st.assume(S(a.m, k) == (c.case == 'present')); st.assume(S(a.m, l))
    for o in c.returns(c.run(st, [a.p, p, lp])): becomes(c, o.st, a.p, lambda q: z3.Or(S(a.m, q), q == k), lambda q: z3.If(q == k, S(a.V, l), S(a.V, q)), 'E', 'the value of this key and nothing else'); c.noleak(o.st)
@contract('vf_set_value', cases=['present', 'absent'])
def set_value(c):
    st = c.state(); a = mapping(c, st); p, k = c.op(st, 'K', 'k'); xp, x = c.op(st, 'V', 'x'); st.assume(S(a.m, k) == (c.case == 'present')); outs = c.run(st, [a.p, p, xp])
    if c.case == 'absent':
        for o in c.throws(outs, what='an absent key is an error'): same_map(c, o.st, a); c.noleak(o.st)
        return
    for o in c.returns(outs): becomes(c, o.st, a.p, lambda q: S(a.m, q), lambda q: z3.If(q == k, x, S(a.V, q)), 'V', 'the value of this key and nothing else'); c.noleak(o.st)
# ---------------------------------------------------------------- insertion never overwrites
def added(c, o, a, k, v): becomes(c, o.st, a.p, lambda q: z3.Or(S(a.m, q), q == k), lambda q: z3.If(S(a.m, q), S(a.V, q), v), 'V', 'inserted only when the key is new'); c.noleak(o.st)
for w in ('vf_insert_pair', 'vf_insert_var', 'vf_insert_tmp', 'vf_insert', 'vf_free_insert'):
    @contract(w, w[3:], cases=['present', 'absent', 'own value present', 'own value absent'])
    def insert(c, w=w):
        st = c.state(); a = mapping(c, st); p, k = c.op(st, 'K', 'k'); st.assume(S(a.m, k) == ('present' in c.case))
        if 'own' in c.case: l = fresh_int('l'); st.assume(S(a.m, l)); vp, v = Ptr(st.objs[a.p.obj].cells[0][0].store, l, SIZES['vf::K']), S(a.V, l)
        else: vp, v = c.op(st, 'V', 'v')
        for o in c.returns(c.run(st, [a.p, p, vp])):
            added(c, o, a, k, v)
            if w == 'vf_free_insert': refers(c, o, a, k, 'the value now stored')
@contract('vf_insert_own')
def insert_own(c):
    st = c.state(); a = mapping(c, st); p, k = c.op(st, 'K', 'k'); lp, l = c.op(st, 'K', 'l'); st.assume(S(a.m, l))
    for o in c.returns(c.run(st, [a.p, p, lp])): added(c, o, a, k, S(a.V, l))
# ---------------------------------------------------------------- whole maps
def done(x): return lambda q, k: z3.And(S(x.m, q), RANK(x.m, q) < zi(k))
def hints(c, a, b=None, add_b=False, minus=False, keep=None):
    """what a loop over the entries of an operand has done so far"""
    def hint(L, add):
        q = z3.Int('q!h'); sl = L.slots
        for u in list(sl.values()):
            if u.sort != 'array': continue
            old = lambda q, u=u: S(u.e, q); new = lambda f, why, u=u, stage=1: add(lambda E: z3.ForAll([q], f(E, q, S(E.v[u.name], q)), patterns=[S(E.v[u.name], q)]), why, stage)
            if u.loc[0] == 'member':
                for it in [s for s in sl.values() if isinstance(s.kind, tuple) and s.kind == ('key', u.loc[1])]:
                    end = it.name[:-4] + '.end'; before = lambda E, q, it=it, end=end: z3.Or(E.v[end], q < E.v[it.name])
                    if keep: new(lambda E, q, z, old=old, before=before: z == z3.And(old(q), z3.Or(keep(q), N(before(E, q)))), 'keys before the iterator decided')
                if add_b: new(lambda E, q, z, old=old: z == z3.Or(old(q), done(b)(q, E.k)), 'keys of the second map visited so far added')
                if minus: new(lambda E, q, z, old=old: z == z3.And(old(q), N(done(b)(q, E.k))), 'keys visited so far removed')
                new(lambda E, q, z, old=old: z == z3.Or(old(q), z3.And(done(a)(q, E.k), keep(q) if keep else z3.BoolVal(True))), 'keys visited so far taken over')
                if keep and b is not None: new(lambda E, q, z, old=old: z == z3.Or(old(q), z3.And(done(b)(q, E.k), S(a.m, q))), 'keys of the second operand visited so far taken over')
                add(lambda E, u=u: E.v[u.name] == u.e, 'the keys stay as they are')
            elif u.loc[0] == 'arr' and L.st0.objs[u.loc[1]].mode == 'N':
                m0 = L.st0.objs[u.loc[1]].member; mem = '.'.join(map(str, ('member', u.loc[1])))
                now = lambda E, q, mem=mem, m0=m0: S(E.v[mem] if mem in E.v else m0, q)
                if add_b: new(lambda E, q, z, old=old, m0=m0: z3.Implies(z3.Or(S(m0, q), S(b.m, q)), z == z3.If(z3.Or(S(m0, q), N(done(b)(q, E.k))), old(q), S(b.V, q))), 'values of the new keys, the others as they were')
                new(lambda E, q, z, now=now: z3.Implies(now(E, q), z == S(a.V, q)), 'values as in the first map')
                add(lambda E, u=u: E.v[u.name] == u.e, 'the values stay as they are')
    c.ex.hints.append(hint)
@contract('vf_adjoin', cases=['two maps', 'the same map'])
def adjoin(c):
    st = c.state(); a = mapping(c, st); b = a if c.case == 'the same map' else mapping(c, st, 'b'); hints(c, a, b, True)
    for o in c.returns(c.run(st, [a.p, b.p])):
        becomes(c, o.st, a.p, lambda q: z3.Or(S(a.m, q), S(b.m, q)), lambda q: z3.If(S(a.m, q), S(a.V, q), S(b.V, q)))
        if b is not a: same_map(c, o.st, b, 'the other map is unchanged')
        c.noleak(o.st)
@contract('vf_join', cases=['two maps', 'the same map'])
def join(c):
    st = c.state(); r = c.raw(st, None, 'result'); a = mapping(c, st); b = a if c.case == 'the same map' else mapping(c, st, 'b'); hints(c, a, b, True)
    for o in c.returns(c.run(st, [r, a.p, b.p])): becomes(c, o.st, r, lambda q: z3.Or(S(a.m, q), S(b.m, q)), lambda q: z3.If(S(a.m, q), S(a.V, q), S(b.V, q))); same_map(c, o.st, a, 'the first map is unchanged'); same_map(c, o.st, b, 'the second map is unchanged'); c.noleak(o.st)
@contract('vf_remove_keys')
def remove_keys(c):
    st = c.state(); a = mapping(c, st); b = mapping(c, st, 's', kind='set'); hints(c, a, b, minus=True, keep=lambda q: N(S(b.m, q)))
    for o in c.returns(c.run(st, [a.p, b.p])): becomes(c, o.st, a.p, lambda q: z3.And(S(a.m, q), N(S(b.m, q))), lambda q: S(a.V, q)); kept(c, o.st, b.p, b.m, None, 'the set of keys: '); c.noleak(o.st)
@contract('vf_keys')
def keys(c):
    st = c.state(); r = c.raw(st, None, 'result'); a = mapping(c, st); hints(c, a)
    for o in c.returns(c.run(st, [r, a.p])):
        m = members(c, o.st, r, 'a set is returned')
        if m is not None: q = fresh_int('q'); c.prove(o.st, S(m, q) == S(a.m, q), 'exactly the keys')
        same_map(c, o.st, a); c.noleak(o.st)
@contract('vf_values')
def values(c):
    st = c.state(); r = c.raw(st, None, 'result'); a = mapping(c, st, 'a', 'E')
    for o in c.returns(c.run(st, [r, a.p])):
        if c.check(seqs.alive_seq(o.st, r), 'a list is returned'):
            n, b = seqs.view(o.st, r); j = fresh_int('j'); c.prove(o.st, zi(n) == CARD(a.m), 'as many values as keys'); c.prove(o.st, z3.Implies(z3.And(0 <= j, j < CARD(a.m)), S(b, j) == S(a.V, NTH(a.m, j))), 'the values in the order of their keys')
        same_map(c, o.st, a); c.noleak(o.st)
@contract('vf_restrict')
def restrict(c):
    st = c.state(); r = c.raw(st, None, 'result'); a = mapping(c, st); b = mapping(c, st, 's', kind='set'); hints(c, a, b, keep=lambda q: S(b.m, q))
    for o in c.returns(c.run(st, [r, a.p, b.p])): becomes(c, o.st, r, lambda q: z3.And(S(a.m, q), S(b.m, q)), lambda q: S(a.V, q)); same_map(c, o.st, a); kept(c, o.st, b.p, b.m, None, 'the set of keys: '); c.noleak(o.st)
# ---------------------------------------------------------------- copies and conversions
conv = lambda x: models.FUN('make_E', ['vf::K'], z3.IntSort())(x)
for w, f, sv, tv in (('vf_copy', lambda x: x, 'V', 'V'), ('vf_from_std', lambda x: x, 'V', 'V'), ('vf_convert', lambda x: x, 'E', 'E'), ('vf_convert_values', conv, 'K', 'E')):
    @contract(w, w[3:])
    def convert(c, f=f, sv=sv, tv=tv):
        st = c.state(); r = c.raw(st, None, 'result'); a = mapping(c, st, 'a', sv)
        for o in c.returns(c.run(st, [r, a.p])): becomes(c, o.st, r, lambda q: S(a.m, q), lambda q: f(S(a.V, q)), tv); same_map(c, o.st, a); c.noleak(o.st)
