#!/usr/bin/env python3
"""Helper to plant a bug: plant.py FILE.py [check]
FILE.py sets: ID, PROP, NEEDS, BREAKS, PKG (test package dir), RACE, EDITS [(file, old, new[, count])], DEMO (test source, func TestZZDemo), RUNS (repetitions).
Makes seeded/ID, confirms it in a scratch worktree (demo passes before, builds, stable tests pass, demo fails after) and runs the property's check."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, PROP = spec['ID'], spec['PROP']
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wt = '/tmp/plant/wt-' + ID
env = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
def sh(c, cwd=wt, t=600, e=None):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, env=e or env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout'
shutil.rmtree(wt, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', wt], check=True)
sh('git checkout -q -- . && git clean -fdq')
for e in spec['EDITS']:
    f = os.path.join(wt, e[0]); s = open(f).read(); n = e[3] if len(e) > 3 else 1
    assert s.count(e[1]) == n, (ID, e[0], s.count(e[1]), e[1])
    open(f, 'w').write(s.replace(e[1], e[2]))
_, diff = sh('git diff')
d = os.path.join(V, 'seeded', ID); os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
demo = spec['DEMO']
open(d + '/demo_test.go', 'w').write(demo)
race = ' -race' if spec.get('RACE') else ''
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0: the behaviour is right; otherwise it is broken
here=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.23.12/bin ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
echo "{{\\"Replace\\":{{\\"$PWD/{spec['PKG']}/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}}}" > "$tmp/o.json"
go test{race} -vet=off -overlay "$tmp/o.json" -count={spec.get('RUNS',1)} -timeout 200s -run '^TestZZDemo$' ./{spec['PKG']}
rc=$?
rm -r "$tmp"
exit $rc
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=PROP, needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
sh('git checkout -q -- .')
ok = []
for i in range(0 if 'only' in sys.argv else spec.get('CLEAN', 2)):
    rc, o = sh(f'bash {d}/demo.sh', t=300); ok.append(rc)
    if rc: print(o[-1500:])
rc, o = sh(f'git apply {d}/patch.diff && go build ./...')
if rc: print('BUILD', o)
bad = []
for i in range(0 if 'only' in sys.argv else spec.get('BROKEN', 3)):
    rc, o = sh(f'bash {d}/demo.sh', t=300); bad.append(rc)
    if rc == 0 or 'build failed' in o or 'setup failed' in o: print(o[-1500:])
rc, o = (0, '') if 'only' in sys.argv else sh("go test -json -vet=off -count=1 -timeout 5m ./... | grep -v '\"Action\":\"output\"'")
st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
res = {}
for l in o.splitlines():
    try: j = json.loads(l)
    except Exception: continue
    if j.get('Test') and j['Action'] in ('pass', 'fail'): res[j['Package'] + '/' + j['Test']] = j['Action']
failed = [t for t in st if res.get(t) != 'pass']
chk = ''
if len(sys.argv) > 2:
    props = sys.argv[2].split(',') if sys.argv[2] != 'check' else [PROP]
    for p in props:
        rc, o = sh(f'REPO={wt} bash {V}/check.sh {p} quick', cwd=V, t=950, e=os.environ)
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        n = [l for l in o.splitlines() if 'violat' in l.lower() and not l.startswith('VIOLATION')]
        chk += f' check {p} rc={rc} viol={len(v)}' + (('\n' + o[-1500:]) if rc not in (0, 1) else '')
print(ID, 'clean', ok, 'broken', bad, 'tests failed', [] if 'only' in sys.argv else failed, chk, flush=True)
shutil.rmtree(wt, ignore_errors=True)
