"""verify.py <property id> [contract name substring]: compile the harness from the current sources, run every contract."""
import sys, os, json, subprocess, importlib.util, time, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
CLANG = '/usr/bin/clang++-18'
def build_irdump():
    out = os.path.join(ROOT, 'build', 'irdump'); os.makedirs(os.path.dirname(out), exist_ok=True); src = os.path.join(HERE, 'irdump.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
    flags = subprocess.run('llvm-config-18 --cxxflags', shell=True, capture_output=True, text=True).stdout.replace('-fno-exceptions', '').split()
    libs = subprocess.run('llvm-config-18 --ldflags --libs core irreader analysis demangle support', shell=True, capture_output=True, text=True).stdout.split()
    tmp = out + f'.{os.getpid()}'
    subprocess.run([CLANG, '-std=c++17', '-O1', *flags, src, '-o', tmp, *libs], check=True)
    os.rename(tmp, out); return out
class CompileError(Exception): pass
def load_module(harness, work, extra=()):
    irdump = build_irdump()
    bc = os.path.join(work, os.path.basename(harness) + '.bc')
    cmd = [CLANG, '-std=gnu++20', '-O0', '-g1', '-w', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'harness'), '-emit-llvm', '-c', harness, '-o', bc, *extra]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise CompileError(' '.join(cmd) + '\n' + p.stderr[:6000])
    p = subprocess.run([irdump, bc, os.path.join(HERE, 'stop.txt')], capture_output=True, text=True)
    if p.returncode: raise CompileError('irdump: ' + p.stderr[:2000])
    return json.loads(p.stdout)
def load_contracts(pid):
    import api
    api.CONTRACTS.clear()
    spec = importlib.util.spec_from_file_location(f'contract_{pid}', os.path.join(ROOT, 'contracts', f'{pid}.py'))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m, list(api.CONTRACTS)
HANG = max(60, float(os.environ.get('VF_FULL_TO', '8000')) / 1000 * 5 + 15)
_MODS = None; _CONS = None; _TL = None
def _task(i):
    import api
    con = _CONS[i]; t0 = time.time(); best = None
    def rank(r): return (sum(not o['ok'] for o in r['obls']) + (1 if r['unsupported'] else 0), 1 if r['unsupported'] else 0)
    # a contract that is not discharged while some query ran out of time is tried again with more time and another seed
    for patience in (1, 4) if not os.environ.get('VF_ONCE') else (1,):
        api.core.PATIENCE = patience; api.core.UNKNOWN[0] = 0
        left = _TL - (time.time() - t0)
        if best is not None and left < max(30, 0.6 * _TL): break
        r = api.run_contract(_MODS[con['kw'].get('module', 0)], con, left)
        if best is None or rank(r) < rank(best): best = r
        if rank(best) == (0, 0) or not api.core.UNKNOWN[0]: break
    best['time'] = time.time() - t0
    return i, best
def run_property(pid, work, only=None, jobs=8, tl=300, log=None):
    """returns (results, compile_error)"""
    global _MODS, _CONS, _TL
    m, cons = load_contracts(pid)
    hs = getattr(m, 'HARNESS', [f'{pid}.cpp'])
    mods = []
    for h in hs:
        args = ()
        if isinstance(h, tuple): h, args = h[0], h[1:]
        mods.append(load_module(os.path.join(ROOT, 'harness', h) if not h.startswith('/') else h, work, args))
    if only: cons = [c for c in cons if only in c['name']]
    _MODS, _CONS, _TL = mods, cons, tl
    out = [None] * len(cons)
    if jobs <= 1 or len(cons) <= 1:
        for i in range(len(cons)):
            out[i] = _task(i)[1]
            if log: log(out[i])
        return out, m
    ctx = mp.get_context('fork')
    # one process per contract: a solver that does not come back is ended
    pend = list(range(len(cons))); run = {}; hung = set()
    while pend or run:
        while pend and len(run) < jobs:
            i = pend.pop(0); r, w = ctx.Pipe(False); beat = ctx.Value('d', time.time(), lock=False)
            p = ctx.Process(target=_child, args=(i, w, beat, i in hung)); p.start(); w.close(); run[i] = (p, r, time.time(), beat)
        time.sleep(0.02)
        for i, (p, r, t0, beat) in list(run.items()):
            res = None
            # a query that ignores its time limit: start the contract again with every query in a process of its own
            if i not in hung and not r.poll() and p.is_alive() and time.time() - beat.value > HANG:
                p.kill(); p.join(timeout=5); hung.add(i); pend.insert(0, i); del run[i]; continue
            if r.poll():
                try: res = r.recv()
                except EOFError: res = dict(crash=True)
            elif not p.is_alive(): res = dict(crash=True)
            elif time.time() - t0 > tl + 30: p.kill(); res = dict(crash=True, timeout=True)
            if res is not None:
                p.join(timeout=5)
                if p.is_alive(): p.kill()
                if 'crash' in res: res = dict(name=cons[i]['name'], fn=cons[i]['fn'], unsupported='verifier process ended' + (' (time limit)' if res.get('timeout') else ''), error=None, obls=[], exits={}, executed=[], externals=[], time=time.time() - t0, solver_time=0, queries=0, cvc5=0)
                out[i] = res; del run[i]
                if log: log(res)
    return out, m
def _child(i, w, beat, fork):
    import api
    api.core.BEAT = beat; api.core.FORK = fork
    try: w.send(_task(i)[1])
    finally: w.close()
def fixed_order():
    """the order in which sets are walked must not vary between runs"""
    if os.environ.get('PYTHONHASHSEED') != '0': os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
if __name__ == '__main__':
    fixed_order()
    import tempfile, shutil
    pid = sys.argv[1]; only = sys.argv[2] if len(sys.argv) > 2 else None
    work = tempfile.mkdtemp(prefix='vf')
    def log(r):
        bad = [o for o in r['obls'] if not o['ok']]
        print(f"{r['name']:40} obls {len(r['obls']):4} failed {len(bad)} {r['time']:.1f}s exits {r['exits']}" + (f"  UNSUPPORTED: {r['unsupported']}" if r['unsupported'] else ''))
        if r['error']: print(r['error'])
        for o in bad[:8]: print('    FAIL', o['kind'], o['name'], 'line', o['line'], '|', o['why'], '|', (o['goal'] or '')[:300], '|', (o['model'] or '')[:0 if not os.environ.get('VF_MODEL') else 1500])
    try:
        try: res, m = run_property(pid, work, only, jobs=1 if os.environ.get('VF_J1') else 8, log=log)
        except CompileError as e: print('COMPILE ERROR', e); sys.exit(3)
        print('total', sum(len(r['obls']) for r in res), 'failed', sum(1 for r in res for o in r['obls'] if not o['ok']), 'unsupported', sum(1 for r in res if r['unsupported']))
    finally: shutil.rmtree(work)
