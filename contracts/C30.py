"""String conversion and the string wrapper. The oracle for conversion is the streaming operator of the value itself."""
from api import *
import streams
HARNESS = ['C30.cpp']
ASSUMPTIONS = ['std::string and the string streams satisfy their standard contracts (engine/streams.py)']
M = 1 << 64
def rng_int(st, w, s): lo, hi = (-(1 << (w-1)), 1 << (w-1)) if s else (0, 1 << w); v = fresh_int('value', lo, hi - 1); st.assume(z3.And(v >= lo, v < hi)); return v
def chars(st, t): o = new_obj(st, 'S', 'param', 'characters'); o.cells[-2000] = (Rec('str', text=Text(t)), 32); o.const = True; return Ptr(o.id)
def string(c, st, t=(('var', 'text'),)): p = c.raw(st, 32, 'string'); st.w(p.obj).cells[0] = (Rec('str', text=Text(t)), 32); return p
def value(c, st, kind):
    if kind == 'K': return c.op(st, 'K', 'x')[0]
    if kind == 'bool': return fresh_bool('x')
    if kind in ('char', 'int', 'long', 'size_t'): return rng_int(st, {'char': 8, 'int': 32}.get(kind, 64), kind != 'size_t')
    if kind == 'double': return Flt(z3.Real('x'))
    if kind in ('String', 'string'): return string(c, st)
    return chars(st, (('var', 'text'),))
def text(st, p): return st.objs[p.obj].cells[p.off][0].text
def conv(w, kind):
    @contract(f'vf_{w}_{kind}', f'{w}_{kind}')
    def g(c):
        st = c.state(); x = value(c, st, kind); os = c.out(st); streams.new_stream(st, os); st, _ = c.quiet_run(st, f'vf_stream_{kind}', [os, x]); want = st.objs[os.obj].cells[streams.KEY][0].text
        c.check(len(want.a) == 1, 'the value writes something'); r = c.raw(st, None, 'result')
        for o in c.returns(c.run(st, [r, x])): c.same_text(o.st, text(o.st, r), want, 'the string is the streamed text'); c.noleak(o.st)
for k in ('K', 'bool', 'char', 'int', 'long', 'size_t', 'double', 'String', 'string', 'cstr'): conv('to_string', k); conv('to_str', k)
TX = (('var', 'text'),)
def keep(w, mk, want=TX):
    @contract(w, w[3:])
    def g(c):
        st = c.state(); r = c.raw(st, None, 'result'); args = mk(c, st)
        for o in c.returns(c.run(st, [r] + args)):
            c.same_text(o.st, text(o.st, r), Text(want), 'the text is kept')
            if args and w != 'vf_move': s = st.objs[args[0].obj].cells; c.same_text(o.st, o.st.objs[args[0].obj].cells.get(0, o.st.objs[args[0].obj].cells.get(-2000))[0].text, Text(want), 'the source is unchanged')
            c.noleak(o.st)
keep('vf_default', lambda c, st: [], ()); keep('vf_from_string', lambda c, st: [string(c, st)]); keep('vf_from_chars', lambda c, st: [chars(st, TX)]); keep('vf_copy', lambda c, st: [string(c, st)]); keep('vf_move', lambda c, st: [string(c, st)])
@contract('vf_assign')
def assign(c):
    st = c.state(); d = string(c, st, (('var', 'old'),)); s = string(c, st)
    for o in c.returns(c.run(st, [d, s])): c.same_text(o.st, text(o.st, d), Text(TX), 'the text is taken over'); c.same_text(o.st, text(o.st, s), Text(TX), 'the source is unchanged')
@contract('vf_c_str')
def c_str(c):
    st = c.state(); s = string(c, st)
    for o in c.returns(c.run(st, [s])):
        q = o.st.objs.get(o.val.obj) if isinstance(o.val, Ptr) else None
        if c.check(q is not None and -2000 in q.cells, 'a C string is given'): c.same_text(o.st, q.cells[-2000][0].text, Text(TX), 'of the same text')
        c.same_text(o.st, text(o.st, s), Text(TX), 'the string is unchanged')
