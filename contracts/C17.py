"""Lazy values, over an arbitrary factory that counts its calls and refuses at will. The holder is only ever in the
state the constructor leaves (nothing made) or the state a successful access leaves (something made); every operation is
verified from both, so the properties hold after any sequence of operations."""
from api import *
HARNESS = ['C17.cpp']
ASSUMPTIONS = ['the factory returns a new object or raises an error', 'std::function and std::shared_ptr are verified through their real code, with atomic operations taken as plain ones']
M = 1 << 64
class L: pass
def new(c, st=None):
    st = st or c.state(); l = L(); l.calls, l.n = c.op(st, 'i64', 'calls'); st.assume(l.n < M - 8); l.ref = c.raw(st, 1, 'refuse'); l.b = fresh_bool('refuse'); st.w(l.ref.obj).cells[0] = (Ite(l.b, 1, 0), 1)
    l.val, l.v = c.op(st, 'V', 'value'); l.p = c.raw(st, None, 'lazy'); return st, l
def made(c): st, l = new(c); st, _ = c.quiet_run(st, 'vf_make', [l.p, l.calls, l.ref, l.val]); return st, l
def calls(c, st, l): return zi(c.ex.norm_u(st, c.cell(st, l.calls), 64))
def accessed(c):
    st, l = made(c); st.assume(z3.Not(l.b)); st, l.o = c.quiet_run(st, 'vf_get', [l.p]); st.w(l.ref.obj).cells[0] = (Ite(fresh_bool('refuse'), 1, 0), 1); l.n = l.n + 1; return st, l
def holds(c, st, ptr, l, name):
    o = st.objs.get(ptr.obj) if isinstance(ptr, Ptr) else None
    if c.check(o is not None and o.alive, 'the object exists'): c.prove(st, c.cell(st, ptr).t == l.v, name)
@contract('vf_make')
def make(c):
    st, l = new(c)
    for o in c.returns(c.run(st, [l.p, l.calls, l.ref, l.val])):
        c.prove(o.st, calls(c, o.st, l) == l.n, 'constructing does not call the factory')
        for r in c.returns(c.run(o.st, [l.p], 'vf_kill')): c.prove(r.st, calls(c, r.st, l) == l.n, 'nor does destroying'); c.noleak(r.st)
@contract('vf_get')
def first_access(c):
    st, l = made(c)
    for o in c.run(st, [l.p]):
        c.prove(o.st, calls(c, o.st, l) == l.n + 1, 'the first access calls the factory once')
        if o.kind == 'throw': c.prove(o.st, l.b, 'an error only when the factory raises one'); c.check('Refused' in str(o.val.ti), 'which is the error of the factory', str(o.val.ti)); c.noleak(o.st)
        elif o.kind == 'ret':
            c.prove(o.st, z3.Not(l.b), 'without an error when the factory raises none'); holds(c, o.st, o.val, l, 'the object the factory made is returned')
            for r in c.returns(c.run(o.st, [l.p], 'vf_kill')): c.noleak(r.st); q = r.st.objs.get(o.val.obj); c.check(q is None or not q.alive, 'and released when the holder goes'); c.prove(r.st, calls(c, r.st, l) == l.n + 1, 'destroying does not call the factory')
        else: c.fails(o.st, f'reached {o.kind}')
@contract('vf_get')
def later_access(c):
    st, l = accessed(c)
    for o in c.returns(c.run(st, [l.p])): c.prove(o.st, calls(c, o.st, l) == l.n, 'the factory is not called again'); c.check(same(o.val, l.o), 'the same object is returned'); holds(c, o.st, o.val, l, 'unchanged')
@contract('vf_get')
def after_refusal(c):
    st, l = made(c); st.assume(l.b)
    for o in c.throws(c.run(st, [l.p])):
        s = o.st; s.caught = (); b = fresh_bool('refuse again'); s.w(l.ref.obj).cells[0] = (Ite(b, 1, 0), 1)
        for r in c.run(s, [l.p]):
            c.prove(r.st, calls(c, r.st, l) == l.n + 2, 'the next access calls the factory again')
            if r.kind == 'ret': c.prove(r.st, z3.Not(b), 'and succeeds when the factory does'); holds(c, r.st, r.val, l, 'with the object it made')
            else: c.check(r.kind == 'throw', 'or fails'); c.prove(r.st, b, 'when it refuses again')
@contract('vf_which')
def error_reaches_caller(c):
    st, l = made(c)
    for o in c.returns(c.run(st, [l.p])): c.prove(o.st, zi(c.ex.norm_u(o.st, o.val, 64)) == z3.If(l.b, l.n + 1, 0), 'the error raised by the factory is the one the caller sees'); c.prove(o.st, calls(c, o.st, l) == l.n + 1, 'one call')
def transfer(w, both):
    @contract(w, w[3:])
    def g(c):
        st, l = accessed(c); d = c.raw(st, None, 'other')
        if w == 'vf_assign':
            st2, m = new(c, st); st, _ = c.quiet_run(st2, 'vf_make', [m.p, m.calls, m.ref, m.val]); d = m.p; args = [d, l.p]
        else: args = [d, l.p]
        for o in c.returns(c.run(st, args)):
            c.prove(o.st, calls(c, o.st, l) == l.n, 'copying does not call the factory'); s = o.st
            for r in c.returns(c.run(s, [d], 'vf_get')):
                c.check(same(r.val, l.o), 'the copy shares the object'); c.prove(r.st, calls(c, r.st, l) == l.n, 'without calling the factory'); s = r.st
                if both:
                    for q in c.returns(c.run(s, [l.p], 'vf_get')): c.check(same(q.val, l.o), 'the original keeps the object'); c.prove(q.st, calls(c, q.st, l) == l.n, 'without calling the factory'); s = q.st
                for q in c.returns(c.run(s, [l.p], 'vf_kill')):
                    holds(c, q.st, l.o, l, 'the object outlives the original')
                    for t in c.returns(c.run(q.st, [d], 'vf_get')):
                        c.check(same(t.val, l.o), 'the copy still has it')
                        for u in c.returns(c.run(t.st, [d], 'vf_kill')): c.noleak(u.st); x = u.st.objs.get(l.o.obj); c.check(x is None or not x.alive, 'released with the last owner'); c.prove(u.st, calls(c, u.st, l) == l.n, 'one call in all')
transfer('vf_copy', True); transfer('vf_move', False); transfer('vf_assign', True)
@contract('vf_same')
def one_object(c):
    st, l = made(c); st.assume(z3.Not(l.b))
    for o in c.returns(c.run(st, [l.p, l.p])): c.prove(o.st, zb(tobool(o.val)), 'two accesses give one object'); c.prove(o.st, calls(c, o.st, l) == l.n + 1, 'made by one call')
@contract('vf_get')
def storage_refused(c):
    st, l = made(c); st.assume(z3.Not(l.b)); models.OOM = True
    try: outs = c.run(st, [l.p])
    finally: models.OOM = False
    c.check(len([o for o in outs if o.kind == 'throw']) >= 2, 'storage can be refused for the object and for its owner count')
    for o in outs:
        if o.kind == 'throw':
            s = o.st; n = calls(c, s, l); s.caught = ()
            for r in c.returns(c.run(s, [l.p])):
                c.prove(r.st, calls(c, r.st, l) == n + 1, 'nothing was kept: the next access calls the factory again'); holds(c, r.st, r.val, l, 'and has the object')
                for q in c.returns(c.run(r.st, [l.p], 'vf_kill')): c.noleak(q.st)
        else: c.check(o.kind == 'ret', 'returns')
