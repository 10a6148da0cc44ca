#!/usr/bin/env python3
"""Author and confirm planted bugs.  Not used by any check.

  plant.py make <bugfile.py> [id...]   write seeded/<id>/ from the definitions in bugfile.py
  plant.py confirm [id...]             apply each in /repo, build+test+demo, undo (writes /tmp/plant.log)
  plant.py check [id...]               apply each, run the quick check of its property, undo
"""
import json, os, subprocess, sys, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('PLANT_REPO', '/repo'); VP = os.environ.get('PLANT_VP', '/opt/vp')
H = R + '/include/opt/option.hpp'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh('git -C ' + R + ' checkout -- .')
DEMO = '''#!/bin/sh
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 99
trap 'rm -rf "$dir"' EXIT
for std in %(stds)s; do
    %(cxx)s -std=c++$std %(flags)s -I include -o "$dir/demo" "$here/demo.cpp" || exit 90
    timeout 60 "$dir/demo" || exit 1
done
exit 0
'''
def apply_subs(src, subs):
    for s in subs:
        old, new = s[0], s[1]; nth = s[2] if len(s) > 2 else None
        n = src.count(old)
        if nth is None:
            assert n == 1, (n, old)
            src = src.replace(old, new)
        elif nth == 'all': assert n >= 1; src = src.replace(old, new)
        else:
            pos = -1
            for _ in range(nth): pos = src.index(old, pos + 1)
            src = src[:pos] + new + src[pos + len(old):]
    return src
def make(bugs, ids):
    for b in bugs:
        if ids and b['id'] not in ids: continue
        undo()
        src = open(H).read()
        open(H, 'w').write(apply_subs(src, b['subs']))
        d = sh('git -C ' + R + ' diff').stdout
        undo()
        dd = f'{V}/seeded/{b["id"]}'; os.makedirs(dd, exist_ok=True)
        open(dd + '/patch.diff', 'w').write(d)
        open(dd + '/demo.cpp', 'w').write(b['demo'].lstrip('\n'))
        open(dd + '/demo.sh', 'w').write(DEMO % dict(stds=b.get('stds', '17 20'), cxx=b.get('cxx', 'g++'), flags=b.get('flags', '-O1 -w')))
        os.chmod(dd + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(dd + '/meta.json', 'w'), indent=1)
        print('made', b['id'])
def allids(): return sorted(os.listdir(V + '/seeded'))
def baseline():
    j = json.load(open('/opt/vp/BASELINE.json'))
    return set(j['passed'] if 'passed' in j else j.get('stable', []))
def confirm(ids):
    base = None
    for i in ids or allids():
        undo(); d = f'{V}/seeded/{i}'
        r0 = sh(f'timeout 300 bash {d}/demo.sh', cwd=R)
        r = sh(f'git -C {R} apply {d}/patch.diff')
        if r.returncode: print(i, 'PATCH FAILS', r.stderr[:300]); continue
        r1 = sh(f'timeout 300 bash {d}/demo.sh', cwd=R)
        t = sh('bash ' + VP + '/test.sh /tmp/plant2.json')
        try:
            j = json.load(open('/tmp/plant2.json')); missing = baseline() - set(j['passed'])
        except Exception as e: missing = {str(e)}
        undo()
        ok = r0.returncode == 0 and r1.returncode not in (0, 90, 99) and not missing
        print(i, 'OK' if ok else 'BAD', 'demo', r0.returncode, r1.returncode, 'missing', len(missing), sorted(missing)[:3])
        if r0.returncode or r1.returncode == 90: print((r0.stderr + r1.stderr)[:1500])
        sys.stdout.flush()
def check(ids):
    for i in ids or allids():
        d = f'{V}/seeded/{i}'; p = json.load(open(d + '/meta.json'))['property']
        undo(); sh(f'git -C {R} apply {d}/patch.diff'); t = time.time()
        r = sh(f'VERIF_REPO={R} VERIF_TIER=quick VERIF_SEED=1 python3-vt {V}/check.py {p}', cwd=V)
        undo()
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(f'{i:28} {p} rc={r.returncode} {time.time()-t:.0f}s n={len(v)} {v[0][:170] if v else (r.stdout+r.stderr)[-200:]}')
        sys.stdout.flush()
if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'make':
        g = {}; exec(open(sys.argv[2]).read(), g); make(g['BUGS'], sys.argv[3:])
    elif cmd == 'confirm': confirm(sys.argv[2:])
    elif cmd == 'check': check(sys.argv[2:])
