#!/usr/bin/env python3
"""Validates planted bugs (seeded/<id>) in scratch copies of /repo and runs checks against them.
   plant.py valid ID...            patch applies, builds, the stable tests pass, demo: 0 clean / nonzero patched
   plant.py run TIER ID [CHECK..]  runs the property's check (or the named ones) against the patched copy
   plant.py clean"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('PLANT_W', '/tmp/pl')

def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def vp(d):
    """a copy of /opt/vp whose scripts work on d/repo"""
    os.makedirs(d + '/vp', exist_ok=True)
    for f in os.listdir('/opt/vp'):
        t = open('/opt/vp/' + f, errors='replace').read().replace('/repo/', d + '/repo/').replace('cd /repo\n', f'cd {d}/repo\n').replace("'/repo'", f"'{d}/repo'").replace('/opt/vp/', d + '/vp/').replace("path.split('/')", f'path.replace("{d}/repo", "/repo").split("/")')
        open(d + '/vp/' + f, 'w').write(t)

def tree(name):
    d = f'{W}/{name}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    vp(d)
    return d

def valid(i):
    s = f'{V}/seeded/{i}'
    c = f'{W}/clean'
    head = sh('git -C /repo rev-parse HEAD').stdout
    if not os.path.exists(c) or sh(f'git -C {c}/repo rev-parse HEAD').stdout != head:
        c = tree('clean')
        r = sh(f'bash {c}/vp/build.sh')
        if r.returncode: return 'clean build failed ' + r.stderr[-500:]
    r = sh(f'bash {s}/demo.sh', cwd=c + '/repo', timeout=300)
    if r.returncode: return f'demo fails on the clean tree rc={r.returncode}: {(r.stdout + r.stderr)[-600:]}'
    d = tree(i)
    r = sh(f'git apply {s}/patch.diff', cwd=d + '/repo')
    if r.returncode: return 'does not apply ' + r.stderr
    # only lines of the original repository may be changed
    r = sh(f'bash {d}/vp/test.sh {d}/o.json')
    if not os.path.exists(d + '/o.json'): return 'tests did not run ' + r.stderr[-500:]
    o = json.load(open(d + '/o.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    m = [t for t in b['stable'] if t not in o['passed']]
    if m: return f'{len(m)} stable tests fail: {m[:4]}\n' + r.stderr[-500:]
    r = sh(f'bash {s}/demo.sh', cwd=d + '/repo', timeout=300)
    out = f'rc={r.returncode} {(r.stdout + r.stderr).strip()[-200:]}'
    if r.returncode == 0: return 'demo passes with the patch'
    shutil.rmtree(d)
    return 'OK demo with patch: ' + out

def run(tier, i, checks):
    s = f'{V}/seeded/{i}'
    prop = json.load(open(s + '/meta.json'))['property']
    d = tree('run-' + i)
    subprocess.check_call(['git', 'apply', s + '/patch.diff'], cwd=d + '/repo')
    os.makedirs(d + '/verif')
    sh(f'cp -a {V}/*.py {V}/*.txt {V}/harness {V}/*.json* {d}/verif/; sed -i "s#/repo#{d}/repo#g" {d}/verif/check.py {d}/verif/checks.py; mkdir -p {d}/verif/evidence')
    for ch in checks or [prop]:
        r = sh(f'timeout 900 python3 check.py {ch} {tier}', cwd=d + '/verif')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(f'{i} {ch} {tier}: rc={r.returncode} {"CAUGHT" if r.returncode == 1 and v else "MISSED"} {v[0][:160] if v else (r.stdout + r.stderr)[-300:]}', flush=True)
    shutil.rmtree(d)

a = sys.argv[1:]
if a[0] == 'valid':
    for i in a[1:]: print(i, valid(i), flush=True)
elif a[0] == 'run': run(a[1], a[2], a[3:])
else: shutil.rmtree(W, ignore_errors=True)
