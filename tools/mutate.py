#!/usr/bin/env python3
"""Development aid: makes scratch copies of /repo with one planted change each,
runs the stable tests in them and then the named checks against the copy.

  tools/mutate.py MUTANTS.py [-k SUBSTR] [-j N] [--props all|own] [--refactor]

MUTANTS.py defines M = [(id, "C01[,C02]", file, old, new, note), ...]; a change at
several places has lists for file, old and new."""
import sys, os, time, json, subprocess, shutil, argparse, concurrent.futures as cf
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('-k', default=''); ap.add_argument('-j', type=int, default=2)
ap.add_argument('--props', default='own'); ap.add_argument('--keep', default='')
ap.add_argument('--skiptests', action='store_true')
a = ap.parse_args()
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(a.file).read(), ns)
base = json.load(open('/opt/vp/BASELINE.json'))
stable = base.get('passed') or base.get('stable') or base.get('tests')
subprocess.run([here + '/build'], check=True)
root = '/tmp/mut'; os.makedirs(root, exist_ok=True)

def sh(cmd, env=None, to=1000):
    try:
        r = subprocess.run(cmd, shell=True, capture_output=True, text=True, env=env, timeout=to)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def one(m):
    mid, props, files, olds, news = m[:5]
    if isinstance(files, str): files, olds, news = [files], [olds], [news]
    d = f'{root}/{mid}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    try:
        for f, o, n in zip(files, olds, news):
            p = f'{d}/{f}'; s = open(p).read()
            if s.count(o) != 1: return mid, props, f'BADPATCH {f} count={s.count(o)}'
            open(p, 'w').write(s.replace(o, n))
        ov = f'{d}.overlay.json'
        json.dump({"Replace": {f"{d}/go.mod": "/opt/vp/mod/go.mod", f"{d}/parser_test.go": "", f"{d}/grammer_test.go": ""}}, open(ov, 'w'))
        env = f'. /opt/vp/env.sh; export GOFLAGS="-overlay={ov} -modfile=/opt/vp/mod/go.mod -mod=readonly"; cd {d} && '
        if not a.skiptests:
            rc, out = sh(env + f'go build ./... && go test -json -vet=off -count=1 -timeout 2m ./... > {d}.log; python3 /opt/vp/results.py {d}.res gojson:{d}.log')
            try: res = json.load(open(f'{d}.res'))
            except Exception: return mid, props, 'NOBUILD ' + out[-600:]
            miss = [t for t in stable if t not in res['passed']]
            if miss: return mid, props, f'TESTS FAIL {miss[:3]} ' + (out[-300:] if len(miss) > 50 else '')
        if a.props == 'all': ps = [f'C{i:02d}' for i in range(1, 100) if os.path.isdir(f'{here}/harness/c{i:02d}')]
        elif a.props == 'own': ps = props.split(',')
        else: ps = a.props.split(',')
        rs = []
        for p in ps:
            t0 = time.time()
            rc, out = sh(f'{here}/bin/gosym -prop {p} -tier quick -harness {here}/harness -out {d}.out -evidence {d}.ev.json -known {here}/known_findings.txt -repo {d}')
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            tag = {0: 'quiet', 1: 'CAUGHT'}.get(rc, f'rc{rc}')
            rs.append(f'{p}:{tag}({int(time.time()-t0)}s)')
            if rc not in (0, 1) or (rc == 1 and not v): rs.append(out[-400:])
        return mid, props, ' '.join(rs)
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + '.out', ignore_errors=True)
        for e in ('.log', '.res', '.ev.json', '.overlay.json'):
            if os.path.exists(d + e): os.remove(d + e)

ms = [m for m in ns['M'] if a.k in m[0]]
with cf.ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(one, ms):
        print(*r, flush=True)
