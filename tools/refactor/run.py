#!/usr/bin/env python3
"""Behaviour-preserving changes: each is applied to a copy of /repo, built, tested and put through the checks
of the properties it concerns, which all have to stay quiet.   run.py [NAME...]"""
import sys, os, subprocess, json, shutil
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(here))
env = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
spec = {}
exec(open(os.path.join(here, 'edits.py')).read(), spec)
for name, props, edits in spec['REFACTORINGS']:
    if len(sys.argv) > 1 and name not in sys.argv[1:]: continue
    wt = '/tmp/refactor-' + name
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    subprocess.run('git checkout -q -- . && git clean -fdq', shell=True, cwd=wt)
    for f, old, new in edits:
        p = os.path.join(wt, f); s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run('gofmt -l . ; go build ./... && go vet ./goroutines/... ./prim/... ./pipelines/stagedpipe && go test -count=1 ./goroutines/... ./prim/... 2>&1 | grep -v "no test files"', shell=True, cwd=wt, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and 'copylocks' not in r.stdout or 'FAIL' in r.stdout: print(name, 'BUILD/TEST', r.stdout[-800:])
    for p in props.split():
        c = subprocess.run(['bash', 'check.sh', p, 'quick'], cwd=V, env=dict(os.environ, REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = [l for l in c.stdout.splitlines() if 'incomplete=' in l or 'VIOLATION' in l or 'unwound' in l or 'completes=unsat' in l]
        print(name, p, 'rc=%d' % c.returncode, 'ok' if c.returncode == 0 and not bad else 'LOOK', [b[:200] for b in bad[:3]], flush=True)
    shutil.rmtree(wt, ignore_errors=True)
