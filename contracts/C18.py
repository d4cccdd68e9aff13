"""Handles: every operation from a handle that shares its object with two others, next to an unrelated handle."""
from api import *
HARNESS = ['C18.cpp']
ASSUMPTIONS = ['clone, _copy and _move of the handled class give an equal object and return normally', 'std::shared_ptr is verified through its real code, with atomic operations taken as plain ones', 'the classes handled are the two of the harness; their values are arbitrary']
class S: pass
def handle(c, st, how='vf_from_copy', nm='value'):
    h = c.raw(st, None, 'handle'); vp, v = c.op(st, 'V', nm); args = [h, vp]
    if how == 'vf_from_wide': args = [h, c.op(st, 'K', 'key')[0], vp]
    st, _ = c.quiet_run(st, how, args); return st, h, v
def copy(c, st, h): d = c.raw(st, None, 'handle'); st, _ = c.quiet_run(st, 'vf_copy', [d, h]); return st, d
def seen(c, st, h): st, p = c.quiet_run(st, 'vf_const_pointer', [h]); return st, p
def value(c, st, p): st, q = c.quiet_run(st, 'vf_get', [p]); return c.cell(st, q).t
def clones(c, st): st, n = c.quiet_run(st, 'vf_clones', []); return zi(c.ex.norm_u(st, n, 64))
def alive(c, st, p, name): o = st.objs.get(p.obj) if isinstance(p, Ptr) else None; return c.check(o is not None and o.alive, name)
def world(c, how='vf_from_copy', sharers=2):
    st = c.state(); w = S(); st, w.h, w.v = handle(c, st, how); w.others = []
    for _ in range(sharers): st, g = copy(c, st, w.h); w.others.append(g)
    st, w.k, w.u = handle(c, st, 'vf_from_copy', 'unrelated'); st, w.p = seen(c, st, w.h); st, w.q = seen(c, st, w.k); w.n = clones(c, st); return st, w
def untouched(c, st, w, hs=None):
    """the other handles still have the original object, unchanged, and so has the unrelated one"""
    for g in (w.others if hs is None else hs):
        s, p = seen(c, st, g); c.check(same(p, w.p), 'another handle still has the original object')
        if alive(c, s, w.p, 'which exists'): c.prove(s, value(c, s, w.p) == w.v, 'unchanged')
    s, q = seen(c, st, w.k); c.check(same(q, w.q), 'an unrelated handle keeps its object')
    if alive(c, s, w.q, 'which exists'): c.prove(s, value(c, s, w.q) == w.u, 'unchanged')
def release_all(c, st, hs):
    for h in hs:
        rs = c.returns(c.run(st, [h], 'vf_kill'))
        if not rs: return
        st = rs[0].st
    c.noleak(st)
READ = ['const_reference', 'reference_const', 'const_pointer', 'pointer_const', 'raw_const_pointer', 'raw_pointer_const', 'ref_const', 'ptr_const', 'managed_const_pointer', 'managed_pointer_const', 'conversion', 'const_reference_m', 'const_pointer_m', 'raw_const_pointer_m', 'managed_const_pointer_m', 'conversion_m']
def read(w_):
    @contract('vf_' + w_, w_, cases=['shared', 'alone', 'wide'])
    def g(c):
        st, w = world(c, 'vf_from_wide' if c.case == 'wide' else 'vf_from_copy', 0 if c.case == 'alone' else 2)
        for o in c.returns(c.run(st, [w.h])):
            c.check(same(o.val, w.p), 'read-only access reaches the shared object itself'); c.prove(o.st, clones(c, o.st) == w.n, 'without a clone'); untouched(c, o.st, w)
            s, p = seen(c, o.st, w.h); c.check(same(p, w.p), 'the handle keeps its object'); c.prove(s, value(c, s, p) == w.v, 'unchanged'); release_all(c, s, [w.h, w.k] + w.others)
for r in READ: read(r)
def write(w_):
    @contract('vf_' + w_, w_, cases=['shared', 'shared by two', 'alone', 'wide'])
    def g(c):
        st, w = world(c, 'vf_from_wide' if c.case == 'wide' else 'vf_from_copy', {'alone': 0, 'shared by two': 1}.get(c.case, 2))
        for o in c.returns(c.run(st, [w.h])):
            q = o.val; s, p = seen(c, o.st, w.h); c.check(same(p, q), 'mutable access reaches the object the handle now has'); alive(c, s, q, 'which exists')
            if c.case != 'alone': c.check(not same(q, w.p), 'it is no longer the shared one')
            c.prove(s, value(c, s, q) == w.v, 'with the same value'); untouched(c, s, w)
            xp, x = c.op(s, 'V', 'written'); s2, _ = c.quiet_run(s, 'vf_set', [q, xp]); untouched(c, s2, w); s2, p2 = seen(c, s2, w.h); c.check(same(p2, q), 'the handle keeps its object'); c.prove(s2, value(c, s2, p2) == x, 'and sees the write')
            s3, d = copy(c, s2, w.h); s3, r = seen(c, s3, d); c.check(same(r, q), 'later copies share the new object'); release_all(c, s3, [w.h, d, w.k] + w.others)
for r in ('reference', 'pointer', 'raw_pointer', 'ref', 'ptr', 'managed_pointer'): write(r)
@contract('vf_copy')
def copy_handle(c):
    st, w = world(c); d = c.raw(st, None, 'handle')
    for o in c.returns(c.run(st, [d, w.h])):
        s, p = seen(c, o.st, d); c.check(same(p, w.p), 'the copy shares the object'); c.prove(s, clones(c, s) == w.n, 'without a clone'); untouched(c, s, w, [w.h] + w.others); release_all(c, s, [w.h, d, w.k] + w.others)
@contract('vf_move')
def move_handle(c):
    st, w = world(c); d = c.raw(st, None, 'handle')
    for o in c.returns(c.run(st, [d, w.h])):
        s, p = seen(c, o.st, d); c.check(same(p, w.p), 'the new handle has the object'); c.prove(s, clones(c, s) == w.n, 'without a clone'); untouched(c, s, w); release_all(c, s, [w.h, d, w.k] + w.others)
def assign(w_):
    @contract(w_, w_[3:], cases=['another object', 'the same object', 'itself'])
    def g(c):
        st, w = world(c); d = w.others[0] if c.case == 'the same object' else w.h
        if c.case == 'another object': st, d, _ = handle(c, st)
        for o in c.returns(c.run(st, [d, w.h])):
            s, p = seen(c, o.st, d); c.check(same(p, w.p), 'the assigned handle shares the object'); c.prove(s, clones(c, s) == w.n, 'without a clone'); untouched(c, s, w, [g for g in w.others if g is not d] + ([w.h] if w_ == 'vf_assign' else []))
            release_all(c, s, [w.k, w.h] + w.others + ([d] if c.case == 'another object' else []))
assign('vf_assign'); assign('vf_move_assign')
def ctor(w_, own):
    @contract(w_, w_[3:])
    def g(c):
        st = c.state(); h = c.raw(st, None, 'handle'); vp, v = c.op(st, 'V', 'value'); src = None; args = [h, vp]
        if w_ in ('vf_from_object', 'vf_from_moved', 'vf_from_iface', 'vf_from_iface_moved'):
            src = c.raw(st, None, 'object'); st, src = c.quiet_run(st, 'vf_object', [src, vp]); args = [h, src]
        if w_ == 'vf_from_pointer': st, src = c.quiet_run(st, 'vf_new_object', [vp]); args = [h, src]
        if w_ == 'vf_from_wide': args = [h, c.op(st, 'K', 'key')[0], vp]
        for o in c.returns(c.run(st, args)):
            s = o.st; k = c.fn == 'vf_made'; s, p = seen(c, s, h)
            alive(c, s, p, 'the handle has an object'); c.prove(s, value(c, s, p) == v, 'with the value given')
            if own == 'copy': c.check(not same(p, src), 'the object is a copy'); s, q = c.quiet_run(s, 'vf_object_value', [src]); c.prove(s, c.cell(s, q).t == v, 'the original is unchanged')
            if own == 'move': c.check(not same(p, src), 'the object is a new one')
            if own == 'take': c.check(same(p, src), 'it is the very object given')
            if own in ('copy', 'move'): s, _ = c.quiet_run(s, 'vf_kill_object', [src])
            alive(c, s, p, 'the object does not depend on the original'); c.prove(s, value(c, s, p) == v, 'and keeps its value')
            for r in c.returns(c.run(s, [h], 'vf_kill_made' if k else 'vf_kill')): q = r.st.objs.get(p.obj); c.check(q is None or not q.alive, 'the handle releases it'); c.noleak(r.st)
for a, b in (('vf_from_object', 'copy'), ('vf_from_moved', 'move'), ('vf_from_iface', 'copy'), ('vf_from_iface_moved', 'move'), ('vf_from_pointer', 'take'), ('vf_from_shared', None), ('vf_from_copy', None), ('vf_from_wide', None), ('vf_made', None)): ctor(a, b)
@contract('vf_hc_reference')
def read_only_handle(c):
    st = c.state(); vp, v = c.op(st, 'V', 'value'); h = c.raw(st, None, 'handle')
    for o in c.returns(c.run(st, [vp, h])):
        if c.check(isinstance(o.val, Ptr) and o.val.obj is not None, 'access through a handle of a read-only object reaches the shared object'): c.prove(o.st, value(c, o.st, o.val) == v, 'unchanged'); c.prove(o.st, clones(c, o.st) == 0, 'without a clone')
@contract('vf_to_const')
def to_read_only(c):
    st, w = world(c); d = c.raw(st, None, 'handle')
    for o in c.returns(c.run(st, [d, w.h])):
        s, p = c.quiet_run(o.st, 'vf_hc_pointer', [d]); c.check(same(p, w.p), 'the read-only handle shares the object'); c.prove(s, clones(c, s) == w.n, 'without a clone'); untouched(c, s, w, [w.h] + w.others); s, _ = c.quiet_run(s, 'vf_kill_const', [d]); release_all(c, s, [w.h, w.k] + w.others)
