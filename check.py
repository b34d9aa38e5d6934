#!/usr/bin/env python3
"""Run one check: check.py <property id> quick|thorough.

Builds the harness(es) of the property from /repo's current working tree, runs the exhaustive enumeration, replays every
failure in a fresh process, applies the known-findings list and writes evidence/<id>.json.
Exit 0: held.  Exit 1: VIOLATION line(s).  Exit 2: the check itself could not run.
"""
import sys, os, json, subprocess, time, glob, shutil, shlex, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, VERIF)
from checks import CHECKS

def die(msg):
    print('CHECK-ERROR', msg); sys.exit(2)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

LIBS = {'rlib': ['rlib'], 'rex': ['rlib', 'rex'], 'rvm': ['rlib', 'rvm'], 'rpa': ['rlib', 'rvm', 'rex', 'rpa']}
MODES = {
    'fast':  ['-O2', '-g1'],
    'asan':  ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'ubsan': ['-O1', '-g1', '-fsanitize=address', '-fsanitize=bounds,null,object-size,integer-divide-by-zero,unreachable,return', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan':  ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer'],
}
INC = ['-I', REPO, '-I', REPO + '/arch/unix']

def build(prop, h, bdir):
    """Compile the sources of one harness; returns the path of the program."""
    mode = MODES[h.get('mode', 'fast')]
    defs = ['-DR_DEBUG_MEMALLOC'] + h.get('defs', [])
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ)
    gen = h.get('gen')
    if gen:
        gen(REPO, bdir, sh, die)
    jobs = []
    libmode = h.get('libmode')          # extra flags for the code under test only
    for d in LIBS.get(h.get('lib', ''), []):
        for s in sorted(glob.glob(f'{REPO}/{d}/*.c')):
            jobs.append((s, f'{bdir}/{d}_{os.path.basename(s)}.o', ['gcc', '-std=gnu11'] + mode + (libmode or [])))
    for s in h.get('extra', []):
        cc = ['g++', '-std=gnu++17'] if s.endswith('.cpp') else ['gcc', '-std=gnu11']
        jobs.append((s.replace('@REPO', REPO).replace('@B', bdir).replace('@V', VERIF), f'{bdir}/x_{os.path.basename(s)}.o', cc + mode + (libmode or []) + h.get('extradefs', [])))
    for s in h['src']:
        cc = ['g++', '-std=gnu++17'] if s.endswith('.cpp') else ['gcc', '-std=gnu11']
        jobs.append((f'{VERIF}/harness/{s}', f'{bdir}/h_{os.path.basename(s)}.o', cc + (h.get('hmode') or mode) + h.get('hdefs', []) + ['-I', VERIF + '/harness']))
    def one(j):
        src, obj, cc = j
        r = sh(cc + ['-w', '-c', src, '-o', obj] + INC + ['-I', bdir] + defs, env=env)
        return (src, r)
    with ThreadPoolExecutor(8) as ex:
        for src, r in ex.map(one, jobs):
            if r.returncode:
                die(f'{prop}: cannot compile {src}\n{r.stdout[-3000:]}')
    exe = f'{bdir}/h'
    r = sh(['g++'] + mode + h.get('link', []) + [j[1] for j in jobs] + ['-o', exe, '-lm', '-lpthread'] + h.get('libs', []))
    if r.returncode:
        die(f'{prop}: cannot link\n{r.stdout[-3000:]}')
    return exe

def known(prop):
    res = {}
    fn = VERIF + '/KNOWN_FINDINGS.txt'
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\S+) case=(\S+?)\|(.*?)\|\| (.*)$', l.rstrip('\n'))
            if m and m.group(1) == prop:
                res[(m.group(2), m.group(3))] = m.group(4)
    return res

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if prop not in CHECKS:
        die('unknown property')
    c = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    root = f'{VERIF}/build/{prop}-{tier}'
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
    budget_total = c.get('budget', {}).get(tier, 560 if tier == 'quick' else 3 * 3600)
    nw = os.cpu_count() or 8
    tot = dict(evals=0, steps=0, traces=0, distinct=0, distinct_overflow=0)
    fams, fails, exhaustive = [], [], True
    harnesses = [h for h in c['harnesses'] if tier in h.get('tiers', ('quick', 'thorough'))]
    left = budget_total
    for n, h in enumerate(harnesses):
        if fails and os.environ.get('VH_FAILFAST'): break   # development only
        bdir = f'{root}/{n}'
        exe = build(prop, h, bdir)
        tmp = f'{bdir}/tmp'; os.makedirs(tmp)
        env = dict(os.environ, VH_TMP=tmp, VH_BDIR=bdir, **h.get('env', {}))
        out = f'{bdir}/out.json'
        s0 = time.time()
        r = sh([exe, 'run', tier, str(h.get('workers', nw)), str(max(20, left / (len(harnesses) - n) if n + 1 < len(harnesses) else left)), out, tmp], env=env)
        left -= time.time() - s0
        if r.returncode or not os.path.exists(out):
            die(f'{prop}: harness failed rc={r.returncode}\n{r.stdout[-3000:]}')
        d = json.load(open(out))
        for k in tot: tot[k] += d.get(k, 0)
        exhaustive = exhaustive and d['exhaustive']
        for f in d['families']: f['harness'] = h['src'][0]; fams.append(f)
        for f in d['fails']: f['exe'] = exe; f['env'] = env; f['limit'] = h.get('replay_timeout', 200); fails.append(f)
    kn = known(prop)
    fails.sort(key=lambda f: (f['family'], f['idx']))
    nviol, reported, knownseen = 0, 0, []
    confirmed_keys = set()
    for f in fails:
        k = (f['family'], f['key'])
        if k in kn:
            if k not in knownseen:
                knownseen.append(k)
                print(f'KNOWN-FINDING: property={prop} {kn[k]}')
            continue
        if reported >= 8:
            nviol += 1
            continue
        # replay in a fresh process before reporting
        cmd = [f['exe'], 'replay', tier, f['family'], str(f['idx'])]
        try:
            r = sh(cmd, env=f['env'], timeout=f['limit'])
            bad = r.returncode != 0; detail = r.stdout[-2500:]
        except subprocess.TimeoutExpired:
            bad = True; detail = 'timeout on replay'
        if not bad:
            # not reproducible alone: the machinery's own nondeterminism is never reported as a defect
            print(f'NOTE property={prop} not reproduced on replay: {f["msg"][:300]}')
            exhaustive = False
            continue
        nviol += 1; reported += 1
        path = f'{VERIF}/evidence/replay/{prop}-{tier}-{reported}.txt'
        with open(path, 'w') as o:
            o.write(f'property: {prop}\nkind: {f["kind"]}\ncase: {f["family"]} #{f["idx"]}\ninput: {f["key"]}\nwhat: {f["msg"]}\n'
                    f'replay: python3 /verif/check.py {prop} {tier}   (builds), then\n        {" ".join(shlex.quote(x) for x in cmd)}\n\n{detail}\n')
        print(f'VIOLATION property={prop} replay={path}')
        print('   ', f['msg'][:600])
    wall = time.time() - t0
    if os.environ.get('VH_TIMES'):
        for f in fams: print(f"  {f['cpu_s']:9.1f} cpu s  {f['executed']:9d}  {f['name']} ({f['harness']})")
    samples = []
    for f in fams:
        for s in f['samples'][:2]:
            samples.append(f"{f['name']}: {s}"[:400])
    cov = dict(states=tot['distinct'], transitions=tot['steps'], traces_validated_against_impl=tot['traces'] or tot['evals'],
               evaluations=tot['evals'], distinct_nontrivial=tot['distinct'], rule=c['rule'], exhaustive=bool(exhaustive),
               families=[dict(name=f['name'], cases=f['cases'], executed=f['executed'], harness=f['harness']) for f in fams], samples=samples[:40])
    if tot['distinct_overflow']: cov['distinct_set_overflow'] = tot['distinct_overflow']
    ev = dict(property=prop, tier=tier, seed=seed, level=c.get('level', 'model_checking'), coverage=cov,
              assumptions=c.get('assumptions', []), wall_s=round(wall, 2), violations=nviol)
    with open(f'{VERIF}/evidence/{prop}.json', 'w') as o:
        json.dump(ev, o, indent=1)
    print(f'{prop} {tier}: cases={sum(f["executed"] for f in fams)} evaluations={tot["evals"]} distinct={tot["distinct"]} transitions={tot["steps"]} exhaustive={exhaustive} violations={nviol} wall={wall:.1f}s')
    if nviol == 0:
        shutil.rmtree(root, ignore_errors=True)
    sys.exit(1 if nviol else 0)

if __name__ == '__main__':
    main()
