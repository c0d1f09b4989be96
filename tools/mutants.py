#!/usr/bin/env python3
"""mutants.py OUT.jsonl [PATTERN] [WORKERS] [EVERY]: small changes to /repo against the checks.
Each change that compiles is tried against the checks of its part of the code until one reports. Works on copies in /tmp/mut."""
import subprocess, sys, os, json, re, threading, queue, shutil, random
V = '/verif'; W = '/tmp/mut'
out = sys.argv[1]; pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else '.')
nw = int(sys.argv[3]) if len(sys.argv) > 3 else 6
every = int(sys.argv[4]) if len(sys.argv) > 4 else 1
ALL = [f'C{i:02d}' for i in range(1, 30)]
FIRST = [('operation/', 'C01 C02 C05 C03'), ('tensor/(abs|neg|oper|activate|math)', 'C01 C06 C05 C08 C25'), ('tensor/(tensor_math|dim_math|softmax)', 'C02 C06 C08'),
  ('tensor/(transpose|reshape|concat|sub_tensor|copy|fill)', 'C03 C27 C06 C08'), ('tensor/dot', 'C04 C08 C06'), ('tensor/constructor', 'C27 C25 C07'), ('tensor/tensor_mat', 'C07 C27 C09 C06'),
  ('layer/(base|dense|conv|deconv)', 'C11 C15 C26 C13 C10 C17 C19 C21 C16 C28'), ('layer/', 'C12 C16 C13 C21 C17 C19 C10 C14 C28'), ('model/', 'C18 C15 C21 C13 C14 C17 C26 C10 C28 C29'),
  ('scalar/', 'C23'), ('img/', 'C22'), ('activation/', 'C20'), ('tools/', 'C07 C08 C03 C18 C13 C28'), ('context|graph', 'C05 C21 C15 C29'), ('number', 'C25 C27 C23')]
def order(f):
    for p, l in FIRST:
        if re.match(p, f):
            return l.split()
    return ALL
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off', GOTOOLCHAIN='local', CGO_ENABLED='1', VERIF_SEED='1', VERIF_UNSCALED='1')
def sh(c, cwd, t=120):
    try:
        r = subprocess.run(['bash', '-c', c], cwd=cwd, capture_output=True, text=True, env=env, timeout=t + 20)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 124, ''
GEN = W + '/mutate'
os.makedirs(W, exist_ok=True)
print(sh(f'go build -o {GEN} .', f'{V}/tools/mutate'))
files = subprocess.run('git ls-files "*.go"', shell=True, cwd='/repo', capture_output=True, text=True).stdout.split()
files = [f for f in files if not f.endswith('_test.go') and pat.search(f)]
done = set()
if os.path.exists(out):
    for l in open(out): d = json.loads(l); done.add((d['file'], d['from'], d['to'], d['new']))
fo = open(out, 'a'); lock = threading.Lock()
groups = {}
for f in files:
    b = f.split('/')[0]
    k = {'context': 'a', 'graph': 'a', 'number': 'a', 'operation': 'a', 'activation': 'a', 'scalar': 'b', 'tools': 'b', 'img': 'b', 'errors': 'a', 'types': 'a'}.get(b, b)
    if b == 'tensor': k += '1' if f < 'tensor/oper' else '2'
    if b == 'layer': k += '1' if f < 'layer/dec' else '2' if f < 'layer/max' else '3'
    groups.setdefault(k, []).append(f)
for g in groups.values():
    d = f'{W}/w'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f'cp -a /repo {d}/repo; mkdir {d}/v; cp -a {V}/harness {V}/check.sh {V}/known_findings.jsonl {d}/v/; cp /repo/go.mod {d}/t.mod; cp /repo/go.sum {d}/t.sum', '/')
    sh(f"sed -i 's|=> /repo|=> {d}/repo|' {d}/v/harness/go.mod", '/')
    muts = []
    for f in g:
        rc, o = sh(f'{GEN} {d}/repo {f} {len(muts)}', '/')
        if rc: print('GEN', f, o[-500:], flush=True); continue
        muts += [json.loads(l) for l in o.splitlines() if l.startswith('{')]
    muts = [m for m in muts if (m['file'], m['from'], m['to'], m['new']) not in done][::every]
    print(g, len(muts), flush=True)
    if not muts: continue
    q = queue.Queue(); [q.put(m) for m in muts]
    bl = threading.Lock(); built = {}
    def binary(c):
        with bl:
            if c not in built:
                n = c.lower(); race = '-race' if os.path.exists(f'{V}/harness/cmd/{n}/RACE') else ''
                rc, o = sh(f'go build {race} -o {d}/{n} ./cmd/{n}', f'{d}/v/harness', 600)
                if rc: print('BUILD', f, c, o[-500:], flush=True)
                built[c] = rc == 0
        return built[c]
    def work(k):
        e = f'{d}/e{k}'; os.makedirs(e + '/evidence'); shutil.copy(f'{V}/known_findings.jsonl', e)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            m['res'] = 'SURVIVED'
            for c in order(m['file']):
                if not binary(c): continue
                rc, o = sh(f'VERIF_UNSCALED=1 GODEEP_MUT={m["id"]} timeout 60 {d}/{c.lower()} -failfast -verif {e}', e)
                if rc: m['res'] = f'{c} rc={rc}'; break
            with lock: fo.write(json.dumps(m) + '\n'); fo.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(W, ignore_errors=True)
