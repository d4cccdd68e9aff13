#!/usr/bin/env python3
"""seed.py make <spec.py>   write /verif/seeded/<id>/ from specs (each confirmed by 'test' afterwards)
seed.py test <id>...        in a private mount of a scratch copy over /repo: build, tests, demo with and without the change, checks"""
import sys, os, json, subprocess, shutil, tempfile, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: the property holds for this demonstration
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
g++ -std=gnu++20 -O1 -g -w %s -Iinclude "$here/demo.cpp" %s -o "$d/demo" || exit 3
cd "$d" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 60 ./demo
'''
def make(spec):
    ns = {}; exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = f"{R}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix='seed'); sh(f'cp -a /repo/. {t}/r')
        for f, a, b in s['edits']:
            p = f'{t}/r/{f}'; x = open(p, newline='').read()
            if x.count(a) != 1: print(s['id'], 'edit matches', x.count(a), 'times:', a[:60]); break
            open(p, 'w', newline='').write(x.replace(a, b))
        else:
            open(f'{d}/patch.diff', 'wb').write(subprocess.run(['git', '-C', f'{t}/r', 'diff'], capture_output=True).stdout)
            open(f'{d}/demo.sh', 'w').write(DEMO % (s.get('flags', '-fsanitize=address,undefined -fno-sanitize-recover=all'), s.get('libs', '')))
            os.chmod(f'{d}/demo.sh', 0o755); open(f'{d}/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
            print('made', s['id'])
        shutil.rmtree(t)
def inside(i, verif):
    """runs with the scratch copy mounted over /repo"""
    d = f'{R}/seeded/{i}'; m = json.load(open(f'{d}/meta.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    res = []
    r0 = sh(f'bash {d}/demo.sh', cwd='/repo'); res.append(f'demo clean {r0.returncode}')
    a = sh(f'git apply {d}/patch.diff', cwd='/repo'); res.append(f'apply {a.returncode}')
    b = sh('bash /opt/vp/build.sh'); res.append(f'build {b.returncode}')
    t = sh('bash /opt/vp/test.sh /tmp/seed_tests.json'); p = json.load(open('/tmp/seed_tests.json'))['passed']
    miss = [x for x in stable if x not in p]; res.append('tests ok' if not miss else f'tests FAIL {miss[:3]}')
    r1 = sh(f'bash {d}/demo.sh', cwd='/repo'); res.append(f'demo patched {r1.returncode}')
    good = r0.returncode == 0 and r1.returncode not in (0, 3) and not b.returncode and not miss and not a.returncode
    if r0.returncode: res.append(r0.stderr[-400:])
    c = sh(f'python3-vt check.py {m["property"]}', cwd=R)
    v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]; und = re.findall(r'failing input: (.{0,160})', c.stdout) + re.findall(r'undischarged: (.{0,90})', c.stdout)[:2] + re.findall(r'(\d+ contracts not decided)', c.stdout)
    print(f"{i} [{m['property']}] {'COUNTS' if good else 'BAD SEED'} {'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode}{' (no input)' if v and 'no-failing' in v[0] else ''} | {', '.join(res)} | {' / '.join(und)}", flush=True)
def test(ids):
    for i in ids:
        t = tempfile.mkdtemp(prefix='seedw'); sh(f'cp -a /repo {t}/r; cp -a {R}/. {t}/v')
        p = sh(f"unshare -Urm bash -c 'mount --bind {t}/r /repo; mount --bind {t}/v {R}; cd {R}; python3 {R}/tools/seed.py inside {i}'")
        print(p.stdout.strip() or p.stderr[-800:], flush=True); shutil.rmtree(t)
if __name__ == '__main__':
    if sys.argv[1] == 'make': [make(x) for x in sys.argv[2:]]
    elif sys.argv[1] == 'inside': inside(sys.argv[2], None)
    else: test(sys.argv[2:] if sys.argv[2:] != ['all'] else sorted(os.listdir(f'{R}/seeded')))
