#!/usr/bin/env python3
"""Development aid: writes /verif/seeded/<id>/ from tools/seeds.py and confirms each:
the demonstration passes on the unchanged tree, the changed tree builds and passes
the stable tests, the demonstration fails on it, the changed lines are original.

  tools/mkseed.py [-k SUBSTR]"""
import sys, os, json, subprocess, shutil, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = sys.argv[2] if len(sys.argv) > 2 and sys.argv[1] == '-k' else ''
ns = {}; exec(open(here + '/tools/seeds.py').read(), ns)
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = stable.get('passed') or stable.get('stable') or stable.get('tests')
ORIG = 'e0968c0'
DEMO = '''#!/bin/bash
# Exits 0 if the behaviour is right, 1 if not. Run in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
command -v go >/dev/null || export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GO111MODULE=on GOWORK=off GOTOOLCHAIN=local GOPROXY=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOPATH=${GOPATH:-/root/go}
printf 'module github.com/adamcolton/parlex\\n\\ngo 1.23\\n' > "$t/go.mod"
printf '{"Replace":{"%s/go.mod":"%s/go.mod","%s/zzdemo/main.go":"%s/main.go"}}\\n' "$PWD" "$t" "$PWD" "$here" > "$t/overlay.json"
GOFLAGS="-overlay=$t/overlay.json -mod=readonly" go build RACE-o "$t/demo" ./zzdemo || exit 99
timeout 60 "$t/demo"
'''
IMPORTS = {'fmt': 'fmt', 'os': 'os', 'strings': 'strings', 'regexp': 'regexp', 'errors': 'errors', 'sync': 'sync'}
for p in ['', 'grammar', 'grammar/regexgram', 'lexeme', 'lexer/simplelexer', 'lexer/stacklexer', 'parser/packrat', 'parser/topdown',
          'symbol/setsymbol', 'symbol/stringsymbol', 'tree', 'tree/reducer', 'analyze', 'examples/parlexjson', 'examples/parlexmath', 'examples/scalc']:
    full = 'github.com/adamcolton/parlex' + ('/' + p if p else '')
    IMPORTS[full.split('/')[-1]] = full

def main_go(body):
    pre = '''func must(err error) {
	if err != nil {
		fmt.Println("unexpected error:", err)
		os.Exit(1)
	}
}

func want(what string, ok bool) {
	if !ok {
		fmt.Println("wrong:", what)
		os.Exit(1)
	}
}
'''
    code = pre + body
    used = [q for n, q in sorted(IMPORTS.items(), key=lambda x: x[1]) if re.search(r'\b' + n + r'\.', re.sub(r'"(\\.|[^"\\])*"|`[^`]*`', '""', code))]
    return 'package main\n\nimport (\n' + ''.join(f'\t"{u}"\n' for u in used) + ')\n\n' + code

def sh(c, cwd=None, env=None):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout + r.stderr

bad = 0
for s in ns['S']:
    if k and k not in s['id']: continue
    d = f"{here}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = f"/tmp/seed/{s['id']}"; shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/seed', exist_ok=True)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        open(d + '/main.go', 'w').write(main_go(s['demo'])); sh(f'gofmt -w {d}/main.go')
        open(d + '/demo.sh', 'w').write(DEMO.replace('RACE', '-race ' if re.search(r'\bsync\.', s['demo']) else '')); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        why = []
        rc, out = sh(f'bash {d}/demo.sh', w)
        if rc: why.append('demo fails on the unchanged tree: ' + out[-400:])
        for f, o, n in s['edits']:
            t = open(f'{w}/{f}').read()
            if t.count(o) != 1: why.append(f'bad edit of {f}: {t.count(o)}'); continue
            # are the touched lines original?
            open(f'{w}/{f}', 'w').write(t.replace(o, n))
            sh(f'. /opt/vp/env.sh; gofmt -w {w}/{f}')
        rc, diff = sh('git diff', w)
        open(d + '/patch.diff', 'w').write(diff)
        old = 0; cur = None
        for l in sh('git diff -U0', w)[1].splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m and cur:
                a, c = int(m[1]), int(m[2] or 1)
                if c == 0: a, c = max(a, 1), 1 if a else 0
                for b in sh(f'git blame -l -s -L {a},+{c} HEAD -- {cur}', w)[1].splitlines():
                    if b.lstrip('^').startswith(ORIG): old += 1
        if not old: why.append('no original line is touched')
        ov = json.load(open('/opt/vp/mod/overlay.json'))
        ov = {'Replace': {x.replace('/repo', w): y for x, y in ov['Replace'].items()}}
        json.dump(ov, open(w + '.ov.json', 'w'))
        rc, out = sh(f'. /opt/vp/env.sh; export GOFLAGS="-overlay={w}.ov.json -modfile=/opt/vp/mod/go.mod -mod=readonly"; go build ./... && go test -json -vet=off -count=1 ./... > {w}.log; python3 /opt/vp/results.py {w}.out gojson:{w}.log', w)
        res = json.load(open(w + '.out')); ok = set(res.get('passed', []))
        miss = [x for x in stable if x not in ok]
        if miss: why.append('stable tests fail: ' + str(miss[:3]) + out[-300:])
        rc, out = sh(f'bash {d}/demo.sh', w)
        if rc == 0: why.append('demo passes with the change')
        elif rc == 99: why.append('demo does not build: ' + out[-300:])
        print(s['id'], s['property'], 'ok' if not why else 'NOT OK ' + ' | '.join(why), flush=True)
        print('     ', out.strip().splitlines()[-1][:150] if out.strip() else '')
        if why: bad += 1; shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)
        for e in ('.ov.json', '.log', '.out'):
            if os.path.exists(w + e): os.remove(w + e)
sys.exit(bad)
