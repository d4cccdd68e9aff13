#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property of the current /repo. Exit 0: held; exit 1 with a VIOLATION line."""
import sys, os, json, subprocess, tempfile, shutil, time, re, signal
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(ROOT, 'engine'))
os.chdir(ROOT)
import verify
REPO = verify.REPO
BUDGET = 780          # seconds for everything
WFLAGS = ['-std=gnu++20', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'witness')]
TRUSTED = ['clang++-18 front end (C++ source to LLVM IR) and engine/irdump.cpp (IR to JSON)', 'engine/*.py: symbolic executor, memory model, loop-invariant generator (its invariants are themselves obligations), standard-library contracts',
           'z3 and cvc5 (unsat answers)', 'contracts/*.py as the reading of the property']
def known_findings():
    try: return json.load(open(os.path.join(ROOT, 'known_findings.json')))
    except FileNotFoundError: return []
class Witness:
    def __init__(self, pid, work, tier, seed):
        self.src = os.path.join(ROOT, 'witness', pid + '.cpp'); self.exe = os.path.join(work, 'witness'); self.p = None; self.tier = tier; self.seed = seed; self.t0 = time.time()
        self.extra = []
        if os.path.exists(self.src):
            m = re.search(r'^// flags: (.*)$', open(self.src).read(), re.M)
            if m: self.extra = m.group(1).replace('$REPO', REPO).split()
            self.cmd = ['g++', *WFLAGS, self.src, '-o', self.exe, *self.extra]
            self.p = subprocess.Popen(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    def result(self, limit):
        """(status, text): none, compile, fail, ok, error"""
        if self.p is None: return 'none', ''
        try: out = self.p.communicate(timeout=max(5, limit))[0]
        except subprocess.TimeoutExpired: self.p.kill(); return 'error', 'compilation of the monitor timed out'
        if self.p.returncode: return 'compile', ' '.join(self.cmd) + '\n' + out[:8000]
        d = tempfile.mkdtemp(prefix='vfw')
        try:
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=8000:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')
            p = subprocess.Popen([self.exe, str(self.seed), self.tier], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
            try: out, err = p.communicate(timeout=max(10, limit - (time.time() - self.t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate()
                return 'error', 'the monitor did not finish in time\n' + out[-2000:]
        finally: shutil.rmtree(d, ignore_errors=True)
        self.out = out
        if '\nFAIL ' in '\n' + out or p.returncode not in (0,):
            m = re.search(r'^FAIL (.*)$', out, re.M)
            return 'fail', (m.group(1) if m else f'monitor ended with code {p.returncode}') + '\n\nerror output:\n' + err[-6000:]
        return 'ok', out
    def stats(self):
        m = re.search(r'^DONE cases=(\d+) nontrivial=(\d+)', getattr(self, 'out', ''), re.M)
        return (int(m.group(1)), int(m.group(2)), re.findall(r'^SAMPLE (.*)$', self.out, re.M)) if m else (0, 0, [])
def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); work = tempfile.mkdtemp(prefix='vf' + pid)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    replay = os.path.join(ROOT, 'evidence', f'{pid}.replay.txt')
    if os.path.exists(replay): os.remove(replay)
    if tier == 'thorough': os.environ.setdefault('VF_FULL_TO', '30000')
    try: return run(pid, tier, seed, t0, work, replay)
    finally: shutil.rmtree(work, ignore_errors=True)
def run(pid, tier, seed, t0, work, replay):
    wit = Witness(pid, work, tier, seed)
    res = []; cerr = None; mod = None
    def log(r):
        bad = [o for o in r['obls'] if not o['ok']]
        print(f"  contract {r['name']}: {len(r['obls']) - len(bad)}/{len(r['obls'])} obligations discharged, {r['time']:.1f}s" + (f", NOT DECIDED: {r['unsupported']}" if r['unsupported'] else ''), flush=True)
    try: res, mod = verify.run_property(pid, work, None, jobs=8, tl=int(os.environ.get('VF_TL', '420')), log=log)
    except verify.CompileError as e: cerr = str(e)
    ws, wt = wit.result(BUDGET - (time.time() - t0))
    bad = [(r, o) for r in res for o in r['obls'] if not o['ok']]
    undecided = [r for r in res if r['unsupported']]
    nobl = sum(len(r['obls']) for r in res); ndis = nobl - len(bad)
    known = [k for k in known_findings() if k['property'] == pid and k.get('status', 'known') == 'known']
    # ---- verdict
    violation = None; lines = []
    def is_known(r, o): return any(k.get('contract') == r['name'] and k.get('obligation') == o['name'] for k in known)
    # an obligation on which no prover finds a countermodel is open, not violated: its contract counts as not decided
    opened = [(r, o) for r, o in bad if not is_known(r, o) and o['why'] and re.search(r'timeout|unknown|incomplete|canceled|decreasing measure', o['why']) and ' sat' not in o['why']]
    for r, o in opened:
        if not r['unsupported']: r['unsupported'] = f"open obligation: {o['name']}"; undecided.append(r)
    newbad = [(r, o) for r, o in bad if not is_known(r, o) and (r, o) not in opened]
    if ws == 'fail': violation = ('', f'A concrete run of the real code fails the contract:\n  {wt}\n\nrerun: g++ {" ".join(WFLAGS)} {wit.src} -o /tmp/w {" ".join(wit.extra)} && /tmp/w {seed} {tier}\n')
    elif cerr is not None and ws == 'compile':
        violation = (' no-failing-input-found', 'Neither the harness nor the monitor of this property compiles against the current headers, so part of the public interface it uses is gone:\n' + cerr + '\n' + wt)
    elif newbad: violation = (' no-failing-input-found', '')
    elif ws == 'compile' and cerr is None:
        violation = (' no-failing-input-found', 'The monitor of this property, which only uses the public interface, no longer compiles:\n' + wt)
    if violation is not None:
        txt = [f'property {pid}', '']
        if newbad:
            txt.append('obligations of the verifier that are not discharged:')
            for r, o in newbad[:40]: txt += [f"  contract {r['name']} ({r['fn']}): {o['kind']}: {o['name']}" + (f" (at line {o['line']})" if o['line'] else ''), f"    prover: {o['by']} {o['why'] or ''}", f"    goal: {o['goal'] or ''}"] + ([f"    countermodel: {o['model'][:1500]}"] if o['model'] else [])
            txt.append('')
        for r in undecided: txt.append(f"  contract {r['name']} not decided: {r['unsupported']}")
        txt.append(violation[1]); txt.append(f'monitor: {ws}\n{wt[:3000] if ws != "fail" else ""}')
        open(replay, 'w').write('\n'.join(txt) + '\n')
    # ---- evidence
    cases, nontriv, samples = wit.stats()
    ex = sorted({f for r in res for f in r['executed']}); ext = sorted({f for r in res for f in r['externals']})
    by = {}
    for r in res:
        for o in r['obls']:
            if o['ok']: by[o['by']] = by.get(o['by'], 0) + 1
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) if mod else []
    assumptions += ['memory allocation succeeds for every request that fits the address space; container sizes stay below 2^60', 'operations of element types are functions of the values, do not throw and are unaware of their address; == is equality and < a strict total order on them',
                    'assumed contracts of the standard library (engine/models.py, streams.py, seqs.py): ' + (', '.join(e[:90] for e in ext[:60]) or 'none used'), 'floating-point values are real numbers or not a number; rounding and infinities are left out']
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd=f'python3-vt engine/verify.py {pid}', trusted_base=TRUSTED,
               contracts=[dict(contract=r['name'], wrapper=r['fn'], obligations=len(r['obls']), discharged=sum(o['ok'] for o in r['obls']), reachable_exits=r['exits'], seconds=round(r['time'], 2), not_decided=r['unsupported']) for r in res],
               functions_under_contract=[f[:160] for f in ex if 'vf_' not in f][:150], obligation_kinds={k: sum(1 for r in res for o in r['obls'] if o['kind'] == k) for k in sorted({o['kind'] for r in res for o in r['obls']})},
               discharged_by=by, solver_seconds=round(sum(r['solver_time'] for r in res), 2), solver_queries=sum(r['queries'] for r in res), cvc5_queries=sum(r['cvc5'] for r in res),
               samples=[f"{o['kind']}: {o['name']} [{r['name']}] by {o['by']}" for r in res[:6] for o in r['obls'][-2:]],
               bounded_standin=dict(label='bounded: the contract as a run-time monitor on sampled concrete inputs; not counted as proved', status=ws, evaluations=cases, nontrivial=nontriv, samples=samples[:4],
                                    stands_in_for=[r['name'] for r in undecided] + (['all contracts (harness does not compile with clang)'] if cerr else [])))
    if undecided or cerr: print(f'  bounded stand-in ({ws}, {cases} cases) for: ' + ', '.join(cov['bounded_standin']['stands_in_for']))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=1 if violation is not None else 0)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in known:
        if any(is_known(r, o) for r, o in bad if k.get('contract') == r['name'] and k.get('obligation') == o['name']): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f'{pid}: {ndis}/{nobl} obligations discharged, {len(undecided)} contracts not decided, monitor {ws} ({cases} cases), {time.time() - t0:.1f}s')
    if violation is not None:
        for r, o in newbad[:6]: print(f"  undischarged: {r['name']}: {o['kind']}: {o['name']}" + (f" (line {o['line']})" if o['line'] else ''))
        if ws == 'fail': print('  failing input: ' + wt.split('\n')[0][:600])
        print(f'VIOLATION property={pid} replay={replay}{violation[0]}'); return 1
    if not res and ws not in ('ok',): print('nothing could be checked: ' + (cerr or '')[:500]); return 2
    if (undecided or cerr) and ws == 'error': print('no answer: ' + wt[:300]); return 2
    return 0
if __name__ == '__main__':
    verify.fixed_order()
    sys.exit(main())
