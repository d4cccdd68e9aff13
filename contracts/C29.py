"""Writable objects and writers: the text they write is two opaque pieces, so it is arbitrary."""
from api import *
HARNESS = ['C29.cpp']
ASSUMPTIONS = ['the output stream accepts what is written to it', 'the write member returns the stream it is given']
def O(k, t): return ('op', k, t)
L = T.lit
def w(fn, kinds, want, counted=True):
    @contract(fn, fn[3:])
    def g(c):
        st = c.state(); os = c.out(st); xs = [c.op(st, k, 'x') for k in kinds]; args = [os] + [p for p, _ in xs]; n = None
        if counted: n, _ = c.op(st, 'i64', 'calls'); args.append(n)
        for o in c.returns(c.run(st, args)):
            c.same_text(o.st, o.st.objs[os.obj].cells[streams.KEY][0].text, (('var', 'before'),) + tuple(want(*[t for _, t in xs])), 'exactly what the object writes is appended')
            c.check(same(o.val, os), 'the same stream is returned')
            if counted: c.prove(o.st, zi(c.ex.norm_u(o.st, c.cell(o.st, n), 64)) == 1, 'the member is called once')
            for (p, t), k in zip(xs, kinds): c.prove(o.st, c.cell(o.st, p).t == t, 'the object written is unchanged')
            c.noleak(o.st)
sh = lambda a, b: (L('<'), O('K', a), L(';'), O('K', b), L('>'))
w('vf_iface', 'KK', sh); w('vf_iface_write', 'KK', sh); w('vf_iface_object', 'KK', sh); w('vf_iface_derived', 'KK', lambda a, b: (O('K', b), L('!')))
me = lambda a: (L('('), O('K', a), L(')'))
w('vf_member', 'K', me); w('vf_final', 'K', lambda a: (O('K', a), O('K', a))); w('vf_twice', 'KK', lambda a, b: me(a) + (L(','),) + sh(a, b), False)
pen = lambda v, k: (O('V', v), L(':'), O('K', k))
w('vf_writer_iface', 'VK', pen); w('vf_writer_wide', 'VK', lambda v, k: (O('K', k), L('...'))); w('vf_writer_two', 'VVKK', lambda v, u, k, l: pen(v, k) + pen(u, l) + pen(v, l), False)
w('vf_writer', 'VK', pen, False); w('vf_writer_copy', 'VK', lambda v, k: pen(v, k) + pen(v, k), False); w('vf_writer_handle', 'VK', pen, False)
@contract('vf_writer_object', 'writer_object')
def g(c):
    st = c.state(); os = c.out(st); vp, v = c.op(st, 'V', 'v'); kp, k = c.op(st, 'K', 'k'); a = c.raw(st, 8, 'seen'); b = c.raw(st, 8, 'given')
    for o in c.returns(c.run(st, [os, vp, kp, a, b])):
        c.check(same(c.cell(o.st, a), kp) and same(c.cell(o.st, b), kp), 'the member is called with the object given, not with a copy'); c.prove(o.st, c.cell(o.st, kp).t == k, 'the object written is unchanged'); c.noleak(o.st)
def later(fn):
    @contract(fn, fn[3:])
    def g(c):
        st = c.state(); os = c.out(st); vp, v = c.op(st, 'V', 'v'); kp, k = c.op(st, 'K', 'k'); lp, l = c.op(st, 'K', 'l')
        for o in c.returns(c.run(st, [os, vp, kp, lp])):
            c.same_text(o.st, o.st.objs[os.obj].cells[streams.KEY][0].text, (('var', 'before'),) + tuple(pen(v, l)), 'an object that changes before it is written is written as it then is'); c.check(same(o.val, os), 'the same stream is returned'); c.noleak(o.st)
later('vf_writer_later'); later('vf_handle_later')
