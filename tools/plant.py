#!/usr/bin/env python3
"""plant.py FILE... : makes planted changes from specs and tries them.
A spec is a python file defining: id, prop, needs, breaks, edits=[(file, old, new)], demo (Go main program).
plant.py --try ID [CHECK...] : runs checks against an existing planted change.
Works on copies under /tmp/plant; writes /verif/seeded/<id>/ when everything is confirmed."""
import subprocess, sys, os, json, shutil, re
V = '/verif'; W = '/tmp/plant'
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp go.mod go.sum "$t"/
export GOFLAGS="-mod=mod -modfile=$t/go.mod" GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=1
export DEMO_DIR=$t/scratch
mkdir -p "$DEMO_DIR"
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$t/o.json"
go build @RACE@-overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 3
timeout 200 "$t/demo"
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def fresh(name):
    d = f'{W}/{name}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(W, exist_ok=True)
    sh(f'cp -a /repo {d}')
    sh('git checkout -q -- . && git clean -fdq', d)
    return d
def tests(d):
    env = open('/opt/vp/env.sh').read()
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    shutil.copy('/repo/go.mod', f'{W}/t.mod'); shutil.copy('/repo/go.sum', f'{W}/t.sum')
    e = dict(os.environ, GOFLAGS=f'-mod=mod -modfile={W}/t.mod', GOPROXY='off', GOWORK='off', GOTOOLCHAIN='local', GODEBUG='randautoseed=0')
    r = subprocess.run('go build ./... && go test -json -vet=off -count=1 -timeout 10m ./...', shell=True, cwd=d, capture_output=True, text=True, env=e)
    bad = [json.loads(l) for l in r.stdout.splitlines() if '"Action":"fail"' in l]
    return r.returncode == 0, [x.get('Test') for x in bad], r.stderr[-500:]
def checks(repo, ids):
    vm = f'{W}/vm'
    os.makedirs(vm, exist_ok=True)
    sh(f'rm -rf {vm}/harness {vm}/evidence; cp -a {V}/harness {V}/check.sh {V}/known_findings.jsonl {vm}/; mkdir -p {vm}/evidence')
    sh(f"sed -i 's|=> /repo|=> {repo}|' {vm}/harness/go.mod")
    caught = {}
    for i in ids:
        r = sh(f'VERIF_SEED=1 timeout 900 ./check.sh {i} quick', vm)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        caught[i] = (r.returncode, len(v), r.stdout[:300] if r.returncode else '')
    return caught
def make(f):
    g = {}
    exec(open(f).read(), g)
    id = g['id']; d = fresh('m')
    for file, old, new in g['edits']:
        p = f'{d}/{file}'; s = open(p).read() if os.path.exists(p) else ''
        if s.count(old) != 1:
            print(id, 'EDIT', file, 'matches', s.count(old)); return
        open(p, 'w').write(s.replace(old, new))
    sh('gofmt -l .', d)
    ok, bad, err = tests(d)
    if not ok:
        print(id, 'TESTS', bad, err); return
    patch = sh('git diff', d).stdout
    o = f'{W}/out/{id}'
    if os.path.exists(o): shutil.rmtree(o)
    os.makedirs(o)
    open(f'{o}/patch.diff', 'w').write(patch)
    open(f'{o}/main.go', 'w').write(g['demo'].lstrip())
    open(f'{o}/demo.sh', 'w').write(DEMO.replace('@RACE@', '-race ' if g.get('race') else ''))
    os.chmod(f'{o}/demo.sh', 0o755)
    json.dump({"property": g['prop'], "needs": g['needs'], "what_it_breaks": g['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
    a = sh(f'bash {o}/demo.sh', '/repo'); b = sh(f'bash {o}/demo.sh', d)
    if a.returncode != 0 or b.returncode == 0 or b.returncode == 3:
        print(id, 'DEMO unchanged', a.returncode, (a.stdout+a.stderr)[-600:], 'changed', b.returncode, (b.stdout+b.stderr)[-600:]); return
    dst = f'{V}/seeded/{id}'
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(o, dst)
    c = checks(d, [g['prop']])
    print(id, g['prop'], 'CAUGHT' if c[g['prop']][0] == 1 else 'MISSED', c[g['prop']], flush=True)
if sys.argv[1] == '--try':
    id = sys.argv[2]; d = fresh('m')
    r = sh(f'git apply {V}/seeded/{id}/patch.diff', d)
    if r.returncode: print(r.stderr)
    p = json.load(open(f'{V}/seeded/{id}/meta.json'))['property']
    ids = sys.argv[3:] or [p]
    if ids == ['all']: ids = ['C%02d' % i for i in range(1, 30)]
    for k, v in checks(d, ids).items(): print(id, p, k, v if v[0] else 'quiet', flush=True)
else:
    for f in sys.argv[1:]: make(f)
