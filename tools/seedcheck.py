#!/usr/bin/env python3
"""Development aid: runs the own (or all) checks against each planted change in a scratch copy.
  tools/seedcheck.py [-k SUBSTR] [--all] [-j N]"""
import sys, os, json, subprocess, shutil, glob, argparse, concurrent.futures as cf, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('-k', default=''); ap.add_argument('--all', action='store_true'); ap.add_argument('-j', type=int, default=4)
a = ap.parse_args()
props = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
def one(d):
    id = os.path.basename(d); w = f'/tmp/seedchk/{id}'
    shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/seedchk', exist_ok=True)
    shutil.copytree('/repo', w, symlinks=True)
    out = []
    try:
        subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=w)
        own = json.load(open(d + '/meta.json'))['property']
        for p in (props if a.all else [own]):
            t = time.time()
            r = subprocess.run(RUN(p, w), capture_output=True, text=True, cwd=here, shell=True)
            n = r.stdout.count('VIOLATION property=' + p)
            out.append(f"{p}:{'caught' if r.returncode == 1 and n else 'QUIET' if r.returncode == 0 else 'rc=%d' % r.returncode}({time.time()-t:.0f}s)")
        return id, own, out
    finally:
        shutil.rmtree(w, ignore_errors=True)
def RUN(p, w):
    e = f'/tmp/seedchk/ev-{os.path.basename(w)}'
    return CMD.format(p=p, w=w, e=e)
CMD = here + '/bin/gosym -prop {p} -tier quick -harness ' + here + '/harness -out {e}.out -evidence {e}.json -known ' + here + '/known_findings.txt -repo {w}'
with cf.ThreadPoolExecutor(a.j) as ex:
    for id, own, out in ex.map(one, [d for d in sorted(glob.glob(here + '/seeded/*')) if a.k in d]):
        show = [o for o in out if not a.all or 'QUIET' not in o or o.startswith(own)]
        print(id, own, ' '.join(show), flush=True)
