#!/usr/bin/env python3
"""seed.py add ID PROP   (reads a spec from stdin: python dict with file, edits=[(old,new)], needs, breaks, demo)
   seed.py check [IDS..] [--all]   runs the property's check against each seeded change"""
import json, os, subprocess, sys, shutil
V = '/verif'; R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
def stable(out):
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open(out))
    return [t for t in b if t not in o['passed']]
def add(spec):
    i = spec['id']; d = f'{V}/seeded/{i}'
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'repo not clean'
    os.makedirs(d, exist_ok=True)
    demo = spec['demo']
    if demo.lstrip().startswith('#!'):
        open(f'{d}/demo.sh', 'w').write(demo)
    else:
        open(f'{d}/demo.py', 'w').write(demo)
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD/_build/lib" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /usr/bin/python3 "$here/demo.py"\n')
    for n, t in spec.get('files', {}).items(): open(f'{d}/{n}', 'w').write(t)
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    ok = True
    try:
        r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0, r.stdout[-2000:]
        r = sh(f'bash {d}/demo.sh', cwd=R)
        if r.returncode: print(i, 'DEMO FAILS ON UNCHANGED TREE', r.stdout[-1500:]); ok = False
        for f, old, new in spec['edits']:
            s = open(f'{R}/{f}').read(); assert s.count(old) >= 1, (f, old); assert s.count(old) == 1, ('ambiguous', f, old, s.count(old))
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/test.sh /tmp/seed_out.json'); bad = stable('/tmp/seed_out.json')
        if bad: print(i, 'TESTS FAIL', bad[:5], r.stdout[-1500:] if len(bad) > 30 else ''); ok = False
        r = sh(f'bash {d}/demo.sh', cwd=R)
        if r.returncode == 0: print(i, 'DEMO PASSES WITH THE CHANGE', r.stdout[-500:]); ok = False
    finally:
        clean(); sh('bash /opt/vp/build.sh')
    if ok: print(i, 'valid')
    elif not spec.get('keep'): shutil.rmtree(d); print(i, 'removed')
    return ok
def check(ids, allp=False):
    for i in ids:
        d = f'{V}/seeded/{i}'; p = json.load(open(f'{d}/meta.json'))['property']
        try:
            r = sh(f'git -C /repo apply {d}/patch.diff')
            if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stdout); continue
            r = sh(f'./check {p}', cwd=V)
            l = [x for x in r.stdout.split('\n') if x.strip()]
            v = [x for x in l if x.startswith('VIOLATION')]
            summ = [x for x in l if x.startswith(p + ' [')]
            print(f"{i:32s} {p} exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}  {summ[0][:170] if summ else r.stdout[-300:]}", flush=True)
            if v: print('      ', next((x for x in l if x.startswith('  ')), '')[:200], flush=True)
        finally: clean()
if __name__ == '__main__':
    if sys.argv[1] == 'check':
        ids = sys.argv[2:] or sorted(os.listdir(f'{V}/seeded'))
        check([x for x in ids if os.path.isdir(f'{V}/seeded/{x}')])
    else:
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        sel = sys.argv[3:]
        for s in ns['SPECS']:
            if not sel or s['id'] in sel:
                if os.path.exists(f"{V}/seeded/{s['id']}") and not sel: continue
                add(s)
