"""Stopwatches against an arbitrary clock: every reading of the clock is an unconstrained value, recorded as ghost state.
A watch is represented by the readings at its last restart and last click; each operation is verified from an arbitrary
such state, and must leave exactly the state that the real constructor and a click make of the new readings."""
from api import *
HARNESS = ['C23.cpp']
ASSUMPTIONS = ['clock readings are below 2^62 in magnitude and a stopwatch runs for less than 2^60 nanoseconds (36 years), so that differences are representable in every unit', 'std::chrono arithmetic is verified through its real code; floating-point arithmetic is taken as exact', 'the clock is any source of 64-bit readings']
UNITS = {'Seconds': (1, 1), 'Milliseconds': (1, 1000), 'Microseconds': (1, 10**6), 'Nano': (1, 10**9), 'Minutes': (60, 1), 'Thirds': (1, 3), 'Real': None}
@models.symrx(r'_ZNSt6chrono3_V21[0-9]\w*_clock3nowEv$')
def now(ex, st, a, c):
    t = fresh_int('clock', -(1 << 62), 1 << 62); st.assume(z3.And(t > -(1 << 62), t < 1 << 62))
    for r in st.ghost.get('clock', ()): st.assume(z3.And(t - r < 1 << 60, r - t < 1 << 60))
    st.ghost['clock'] = st.ghost.get('clock', ()) + (t,)
    return ret(st, t)
def readings(st): return st.ghost.get('clock', ())
def fresh(c, st=None):
    st = st or c.state(); p = c.raw(st, None, 'watch'); st, _ = c.quiet_run(st, 'vf_make_' + c.case, [p]); return st, p
def watch(c):
    """an arbitrary watch: pointer, time of the last restart, time of the last click"""
    st, p = fresh(c); st, _ = c.quiet_run(st, 'vf_click_' + c.case, [p]); r = readings(st)
    if not r: raise Unsupported('the clock is not read')
    # a restart is one reading, so is a click
    return st, p, r[0], r[-1]
def numeric(c, o): return o.val.t if isinstance(o.val, Flt) else zi(c.ex.norm_s(o.st, o.val, 64))
def trunc(n, d): return z3.If(n >= 0, n / d, -((-n) / d))
def units(c, i, k):
    """the time from i to k in the unit of the watch"""
    if UNITS[c.case] is None: return z3.ToReal(k - i) / 10**9
    a, b = UNITS[c.case]; return trunc((k - i) * b, a * 10**9)
def observe(c, st, p, i, k, what, bounded=True):
    for o in c.returns(c.run(st, [p], 'vf_duration_' + c.case)):
        c.prove(o.st, numeric(c, o) == units(c, i, k), what); c.check(len(readings(o.st)) == len(readings(st)), 'the clock is not read'); frame(c, o.st, st, p)
def frame(c, st, before, p):
    a, b = before.objs[p.obj].cells, st.objs[p.obj].cells
    c.check(set(a) == set(b) and all(same(a[q][0], b[q][0]) for q in a), 'reading the watch changes nothing')
def like(c, st, p, i, k, name):
    """the watch is the one the real operations make of these readings"""
    s, q, i2, k2 = watch(c); sub = [(i2, zi(i)), (k2, zi(k))]
    A = st.objs[p.obj].cells; B = s.objs[q.obj].cells
    if c.check(set(A) == set(B), name):
        for off in A:
            y = B[off][0]; y = z3.substitute(y, *sub) if isinstance(y, z3.ExprRef) else y
            c.prove(st, eq_t(A[off][0], y), name)
ALL = list(UNITS)
def on_all(fn): return contract('vf_duration_Seconds', fn.__name__, cases=ALL)(fn)
@on_all
def duration(c):
    st, p, i, k = watch(c); observe(c, st, p, i, k, 'the duration is the time from start to last click, truncated to the unit')
@on_all
def zero_at_start(c):
    st, p = fresh(c); i = readings(st)[-1]; observe(c, st, p, i, i, 'a new watch reports zero'); like(c, st, p, i, i, 'a new watch is started and clicked at the time of its construction')
@on_all
def elapsed_seconds(c):
    st, p, i, k = watch(c)
    dur = [o for o in c.run(st, [p], 'vf_duration_' + c.case) if o.kind == 'ret'][-1]; d = numeric(c, dur); st = dur.st
    d = d if UNITS[c.case] is None else z3.ToReal(d) * UNITS[c.case][0] / UNITS[c.case][1]
    for o in c.returns(c.run(st, [p], 'vf_seconds_' + c.case)):
        c.prove(o.st, numeric(c, o) == d, 'the elapsed seconds are the duration in seconds'); c.check(len(readings(o.st)) == len(readings(st)), 'the clock is not read'); frame(c, o.st, st, p)
@on_all
def click(c):
    st, p, i, k = watch(c); n = len(readings(st))
    for o in c.returns(c.run(st, [p], 'vf_click_' + c.case)):
        c.check(same(o.val, p), 'the watch is returned'); r = readings(o.st)
        if c.check(len(r) > n, 'the clock is read'): like(c, o.st, p, i, r[-1], 'a click records the time and keeps the start'); observe(c, o.st, p, i, r[-1], 'the duration after a click')
@on_all
def restart(c):
    st, p, i, k = watch(c); n = len(readings(st))
    for o in c.returns(c.run(st, [p], 'vf_restart_' + c.case)):
        c.check(same(o.val, p), 'the watch is returned'); r = readings(o.st)
        if not c.check(len(r) > n, 'the clock is read'): continue
        t = r[-1]; like(c, o.st, p, t, t, 'a restart sets the start and the last click to the time of the restart'); observe(c, o.st, p, t, t, 'zero right after a restart')
        for q in c.returns(c.run(o.st, [p], 'vf_click_' + c.case)): observe(c, q.st, p, t, readings(q.st)[-1], 'time since the restart')
@on_all
def copy(c):
    st, p, i, k = watch(c); d = c.raw(st, None, 'copy')
    for o in c.returns(c.run(st, [d, p], 'vf_copy_' + c.case)): frame(c, o.st, st, p); observe(c, o.st, d, i, k, 'a copy reports the same')
