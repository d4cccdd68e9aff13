"""Casts of handles and extraction of concrete types, for every pair of an object's class and a requested type."""
from api import *
HARNESS = ['C19.cpp']
ASSUMPTIONS = ['the classes are those of the harness: an interface alone, with a second interface, a further derived class, an object with a plain part, and a wrapped plain object; their values are arbitrary', 'clone gives an equal object of the same class and returns normally', 'dynamic_cast follows the C++ ABI (engine/models.py); std::shared_ptr is verified through its real code']
OBJ = ['OnlyA', 'AandB', 'More', 'WithShape', 'Wrapped']; BC = '_ZTISt8bad_cast'
PARTS = {'OnlyA': ('A', 'A2', 'OnlyA'), 'AandB': ('A', 'B', 'AandB'), 'More': ('A', 'B', 'AandB', 'More'), 'WithShape': ('A', 'Shape', 'WithShape'), 'Wrapped': ('A', 'Shape', 'Wrapped')}
class S: pass
def world(c, T):
    st = c.state(); w = S(); w.T = T; w.h, w.g = c.raw(st, None, 'handle'), c.raw(st, None, 'other'); vp, w.v = c.op(st, 'V', 'value'); kp, _ = c.op(st, 'K', 'key')
    st, _ = c.quiet_run(st, 'vf_make_' + T, [w.h, vp, kp]); st, _ = c.quiet_run(st, 'vf_copy', [w.g, w.h]); st, w.p = c.quiet_run(st, 'vf_seen', [w.h]); return st, w
def part(c, st, w, P, obj=None):
    if P not in PARTS[w.T]: return None
    return c.quiet_run(st, f'vf_part_{w.T}_{P}', [obj or w.p])[1]
def same_handle(c, st, w, h, name, p=None):
    s, q = c.quiet_run(st, 'vf_seen', [h]); c.check(same(q, p or w.p), name)
    s, vp = c.quiet_run(s, 'vf_get', [q]); c.prove(s, c.cell(s, vp).t == w.v, name + ', unchanged')
def unchanged(c, st, w): same_handle(c, st, w, w.h, 'the original handle keeps its object'); same_handle(c, st, w, w.g, 'the other handle keeps its object')
def finish(c, st, hs):
    for k, h in hs:
        rs = c.returns(c.run(st, [h], k))
        if not rs: return
        st = rs[0].st
    c.noleak(st)
def split(c, outs, want):
    """returned outcomes when the request is to succeed; bad-cast errors otherwise"""
    if want is None:
        for o in c.throws(outs, BC, 'a bad-cast error is raised'): o.st.caught = (); yield o, None
    else:
        for o in c.returns(outs, 'the request succeeds'): yield o, o.val
def cast(D, P):
    @contract('vf_cast_' + D, 'cast_' + D, cases=OBJ)
    def g(c):
        st, w = world(c, c.case); want = part(c, st, w, P); at = c.raw(st, None, 'result'); src = w.h
        if D == 'constB': src = c.raw(st, None, 'read-only handle'); st, _ = c.quiet_run(st, 'vf_const', [src, w.h])
        for o, r in split(c, c.run(st, [at, src]), want):
            unchanged(c, o.st, w)
            if r is not None: c.check(same(r, want), 'the handle obtained has the same object')
            finish(c, o.st, ([('vf_kill_' + D, at)] if r is not None else []) + ([('vf_kill_const', src)] if D == 'constB' else []) + [('vf_kill', w.h), ('vf_kill', w.g)])
for D, P in (('B', 'B'), ('A', 'A'), ('A2', 'A2'), ('constB', 'B'), ('HAconstB', 'B')): cast(D, P)
def extract(T):
    for how in ('', 'const_'):
        @contract(f'vf_extract_{how}{T}', f'extract_{how}{T}', cases=OBJ)
        def g(c, how=how):
            st, w = world(c, c.case); want = part(c, st, w, T); src = w.h
            if how: src = c.raw(st, None, 'read-only handle'); st, _ = c.quiet_run(st, 'vf_const', [src, w.h])
            for o, r in split(c, c.run(st, [src]), want):
                unchanged(c, o.st, w)
                if r is not None: c.check(same(r, want), 'the very object is extracted')
                finish(c, o.st, ([('vf_kill_const', src)] if how else []) + [('vf_kill', w.h), ('vf_kill', w.g)])
    @contract(f'vf_extract_mutable_{T}', f'extract_mutable_{T}', cases=OBJ)
    def m(c):
        st, w = world(c, c.case); want = part(c, st, w, T)
        for o, r in split(c, c.run(st, [w.h]), want):
            if r is None: unchanged(c, o.st, w); finish(c, o.st, [('vf_kill', w.h), ('vf_kill', w.g)]); continue
            s, p = c.quiet_run(o.st, 'vf_seen', [w.h]); c.check(not same(p, w.p), 'the handle has an object of its own'); c.check(same(r, part(c, s, w, T, p)), 'which is the one extracted')
            same_handle(c, s, w, w.h, 'it has the same value', p); same_handle(c, s, w, w.g, 'the other handle keeps the original object')
            xp, x = c.op(s, 'V', 'written'); s, _ = c.quiet_run(s, 'vf_write_' + T, [r, xp]); same_handle(c, s, w, w.g, 'a write does not reach the other handle'); s, vp = c.quiet_run(s, 'vf_get', [p]); c.prove(s, c.cell(s, vp).t == x, 'the handle sees the write')
            finish(c, s, [('vf_kill', w.h), ('vf_kill', w.g)])
    @contract(f'vf_extract_pointer_{T}', f'extract_pointer_{T}', cases=OBJ)
    def p(c):
        st, w = world(c, c.case); want = part(c, st, w, T); u, _ = c.op(st, 'i64', 'uses')
        for o in c.returns(c.run(st, [w.p, u])):
            unchanged(c, o.st, w); c.check(same(o.val, want if want is not None else NULL), 'the very object, or an empty pointer'); c.prove(o.st, zi(c.ex.norm_u(o.st, c.cell(o.st, u), 64)) == (2 if want is not None else 1), 'the pointer shares ownership')
            finish(c, o.st, [('vf_kill', w.h), ('vf_kill', w.g)])
for T_ in ('OnlyA', 'AandB', 'More', 'WithShape', 'Shape', 'Wrapped'): extract(T_)
