#!/usr/bin/env python3
"""mkbug.py SPEC.py...   makes and confirms planted changes (see seeded/); nothing here is read by a check.

A spec defines id, prop, needs, breaks, edits = [(file, old, new), ...] and demo (Go test source).
The change is kept if it compiles, the stable tests pass with it, and the demonstration fails only with it."""
import json, os, re, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'])
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(path):
    s = runpy.run_path(path)
    d = f"{V}/seeded/{s['id']}"
    w = f"/tmp/mb/{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/mb', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ('kit_test.go', 'demo.sh'):
        shutil.copy(f'{V}/tools/kit/{f}', d)
    open(f'{d}/demo_test.go', 'w').write(s['demo'].lstrip())
    def fail(m, out=''):
        print(s['id'], 'DROPPED:', m, out[-2500:], flush=True)
        shutil.rmtree(d); shutil.rmtree(w)
    r = run(['bash', f'{d}/demo.sh'], w)
    if r.returncode:
        return fail('demo fails without the change', r.stdout)
    for f, old, new in s['edits']:
        t = open(f'{w}/{f}').read()
        if t.count(old) != 1:
            return fail(f'{f}: {t.count(old)} matches for {old!r}')
        open(f'{w}/{f}', 'w').write(t.replace(old, new))
    r = run(['go', 'build', './...'], w)
    if r.returncode:
        return fail('build', r.stdout)
    r = run(['/opt/veriftools/go1.23.12/bin/gofmt', '-l'] + sorted({f for f, _, _ in s['edits']}), w)
    if r.stdout.strip():
        print(s['id'], 'gofmt:', r.stdout.strip())
    r = run(['bash', f'{d}/demo.sh'], w)
    if r.returncode == 0:
        return fail('demo passes with the change', r.stdout)
    if r.returncode != 1 and 'FAIL' not in r.stdout and 'panic' not in r.stdout:
        return fail('demo breaks', r.stdout)
    msg = [l for l in r.stdout.splitlines() if l.strip()][:6]
    sh = open('/opt/vp/test.sh').read().replace('cd /repo ', f'cd {w} ')
    out = f'/tmp/mb/{s["id"]}.json'
    subprocess.run(['bash', '-s', out], input=sh, text=True, cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    res = json.load(open(out))
    passed = set(res.get('passed', []))
    lost = stable - passed
    if lost:
        return fail(f'{len(lost)} stable tests fail: {sorted(lost)[:4]}')
    diff = run(['git', 'diff'], w).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
    print(s['id'], 'KEPT', ' | '.join(msg)[:400], flush=True)

for p in sys.argv[1:]:
    try:
        one(p)
    except Exception as e:
        print(p, 'ERROR', e, flush=True)
