"""Checking macros over arbitrary conditions. What is raised is read from the exception object itself."""
from api import *
HARNESS = ['C26.cpp']
ASSUMPTIONS = ['building the message does not run out of memory', 'NDEBUG is not defined (the debug forms of the macros are then the same checks)', 'arithmetic conditions of type double are taken over the reals']
RT = '_ZTISt13runtime_error'; M = 1 << 64
def counter(c, st): p, t = c.op(st, 'i64', 'evaluated'); st.assume(t < M - 8); return p, t
def what(c, o):
    e = o.val.ptr; cell = o.st.objs[e.obj].cells.get(e.off); return cell[0].text if cell and isinstance(cell[0], Rec) else None
def carries(c, o, lits, piece=None):
    t = what(c, o)
    if not c.check(t is not None, 'the error carries a message'): return
    s = ''.join(x[1] if x[0] == 'lit' else '\0' for x in t.a)
    for l in lits: c.check(l in s, f'the message has {l!r}', f'message {t}')
    if piece is not None:
        ps = [x for x in t.a if x[0] == 'op']
        if c.check(len(ps) == 1, 'the message has the value given', f'message {t}'): c.prove(o.st, ps[0][2] == piece, 'the message has exactly that value')
def cond(c, st, kind):
    """(argument, whether it holds)"""
    if kind == 'bool': b = fresh_bool('condition'); return b, b
    if kind == 'long': v = fresh_int('condition', -(1 << 63), (1 << 63) - 1); st.assume(z3.And(v >= -(1 << 63), v < 1 << 63)); return v, v != 0
    if kind == 'double': r = fresh_real('condition'); n = fresh_bool('the condition is not a number'); return Flt(r, n), z3.Or(n, r != 0)
    if kind == 'ptr':
        if c.case == 'null': return NULL, z3.BoolVal(False)
        return c.raw(st, 8, 'object'), z3.BoolVal(True)
    if kind == 'obj': b = fresh_bool('condition'); p = c.raw(st, 1, 'condition'); st.w(p.obj).cells[0] = (Ite(b, 1, 0), 1); return p, b
def outcome(c, outs, holds, cnt, t, lits=(), piece=None, once=1):
    """raises exactly when the condition does not hold; evaluated once when it does"""
    for o in outs:
        if o.kind == 'ret':
            c.prove(o.st, holds, 'without an error only when the condition holds')
            if cnt is not None: c.prove(o.st, zi(c.ex.norm_u(o.st, c.cell(o.st, cnt), 64)) == t + once, 'the condition is evaluated exactly once')
        elif o.kind == 'throw':
            c.prove(o.st, z3.Not(holds) if not isinstance(holds, bool) else not holds, 'an error only when the condition does not hold')
            if c.check(c.ex.derives(o.val.ti, RT), 'the error is a runtime error', str(o.val.ti)): carries(c, o, lits, piece)
        else: c.fails(o.st, f'reached {o.kind}')
        c.noleak(o.st)
MACROS = {'assert': 0, 'assert_msg': 1, 'precondition': 0, 'precondition_msg': 1, 'debug_assert': 0, 'debug_assert_msg': 1, 'debug_precondition': 0}
def family(m, msg, kind):
    @contract(f'vf_{m}_{kind}', f'{m}_{kind}', cases=['null', 'not null'] if kind == 'ptr' else None)
    def g(c):
        st = c.state(); cnt, t = counter(c, st); a, h = cond(c, st, kind); args = [cnt, a]
        k = None
        if msg: kp, k = c.op(st, 'K', 'k'); args.append(kp)
        outs = c.run(st, args); kinds = {o.kind for o in outs}
        if kind != 'ptr': c.check(kinds == {'ret', 'throw'}, 'both outcomes occur', str(kinds))
        outcome(c, outs, h, cnt, t, ('because of ',) if msg else ('++evaluated,c',), k)
for m, msg in MACROS.items():
    for kind in ('bool', 'long', 'double', 'ptr', 'obj'): family(m, msg, kind)
@contract('vf_fail_msg')
def fail_msg(c):
    st = c.state(); cnt, t = counter(c, st); kp, k = c.op(st, 'K', 'k')
    for o in c.throws(c.run(st, [cnt, kp]), RT, 'always raises a runtime error'): carries(c, o, ('because of ',), k)
@contract('vf_not_implemented')
def not_implemented(c):
    for o in c.throws(c.run(c.state(), []), RT, 'always raises a runtime error'): carries(c, o, ())
@contract('vf_equal_V')
def equal_V(c):
    st = c.state(); cnt, t = counter(c, st); xp, x = c.op(st, 'V', 'x'); yp, y = c.op(st, 'V', 'y'); outs = c.run(st, [cnt, xp, yp]); c.check({o.kind for o in outs} == {'ret', 'throw'}, 'both outcomes occur')
    outcome(c, outs, x == y, cnt, t)
def i64(st, nm): v = fresh_int(nm, -(1 << 63), (1 << 63) - 1); st.assume(z3.And(v >= -(1 << 63), v < 1 << 63)); return v
@contract('vf_equal_i')
def equal_i(c):
    st = c.state(); cnt, t = counter(c, st); x, y = i64(st, 'x'), i64(st, 'y'); outs = c.run(st, [cnt, x, y]); c.check({o.kind for o in outs} == {'ret', 'throw'}, 'both outcomes occur'); outcome(c, outs, x == y, cnt, t)
@contract('vf_equal_d')
def equal_d(c):
    st = c.state(); cnt, t = counter(c, st); x, y, n, m = fresh_real('x'), fresh_real('y'), fresh_bool('x is not a number'), fresh_bool('y is not a number'); outs = c.run(st, [cnt, Flt(x, n), Flt(y, m)]); c.check({o.kind for o in outs} == {'ret', 'throw'}, 'both outcomes occur'); outcome(c, outs, z3.And(z3.Not(n), z3.Not(m), x == y), cnt, t)
@contract('vf_equal_expr')
def equal_expr(c):
    st = c.state(); cnt, t = counter(c, st); x, y = i64(st, 'x'), i64(st, 'y'); st.assume(z3.And(x > -(1 << 60), x < 1 << 60, y > -(1 << 60), y < 1 << 60)); outs = c.run(st, [cnt, x, y]); outcome(c, outs, x - y == 2 * y, cnt, t)
@contract('vf_prec')
def prec(c):
    st = c.state(); cnt, t = counter(c, st); a, b = fresh_bool('a'), fresh_bool('b'); outcome(c, c.run(st, [cnt, a, b]), z3.Or(a, b), cnt, t)
@contract('vf_prec_msg')
def prec_msg(c):
    st = c.state(); cnt, t = counter(c, st); a, b = fresh_bool('a'), fresh_bool('b'); kp, k = c.op(st, 'K', 'k'); outcome(c, c.run(st, [cnt, a, b, kp]), z3.If(a, b, z3.Not(b)), cnt, t, ('because of ',), k, once=0)
@contract('vf_under_if')
def under_if(c):
    st = c.state(); cnt, t = counter(c, st); a, b = fresh_bool('a'), fresh_bool('b'); outs = c.run(st, [cnt, a, b])
    for o in outs:
        if o.kind == 'throw': c.prove(o.st, z3.And(a, z3.Not(b)), 'an error only when the guarded condition does not hold'); c.check(c.ex.derives(o.val.ti, RT), 'the error is a runtime error')
        else: c.check(o.kind == 'ret', 'returns'); c.prove(o.st, z3.Or(z3.Not(a), b), 'no error otherwise'); c.prove(o.st, zi(c.ex.norm_u(o.st, c.cell(o.st, cnt), 64)) == z3.If(a, t, t + 1), 'the alternative is the other branch')
@contract('vf_in_loop')
def in_loop(c):
    st = c.state(); n, b = fresh_int('n', 0, 1 << 60), fresh_int('bound', 0, 1 << 60); st.assume(z3.And(n >= 0, n < 1 << 60, b >= 0, b < 1 << 60))
    for o in c.run(st, [n, b]):
        if o.kind == 'throw': c.prove(o.st, n > b, 'an error only when some iteration violates the condition'); c.check(c.ex.derives(o.val.ti, RT), 'the error is a runtime error')
        else: c.check(o.kind == 'ret', 'returns'); c.prove(o.st, n <= b, 'no error only when every iteration satisfies it')
@contract('vf_two')
def two(c):
    st = c.state(); a, b = fresh_bool('a'), fresh_bool('b'); kp, k = c.op(st, 'K', 'k')
    for o in c.run(st, [a, b, kp]):
        if o.kind == 'ret': c.prove(o.st, z3.And(a, b), 'without an error only when both conditions hold'); continue
        c.check(o.kind == 'throw' and c.ex.derives(o.val.ti, RT), 'the error is a runtime error'); c.prove(o.st, z3.Not(z3.And(a, b)), 'an error only when one fails')
        if any(x[0] == 'op' for x in what(c, o).a): c.prove(o.st, z3.And(a, z3.Not(b)), 'the message is that of the check that fails')
