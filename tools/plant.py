#!/usr/bin/env python3
"""plant.py NAME: makes /verif/seeded/NAME from /tmp/bugs/NAME.py, which defines
PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], PKG (demo package dir), DEMO (Go test source),
optional RACE=True, RUNS (seconds).  Confirms everything in a scratch copy and runs the check."""
import sys, os, json, subprocess, shutil, textwrap
name = sys.argv[1]
nocheck = '--nocheck' in sys.argv
ns = {}
exec(open(f'/tmp/bugs/{name}.py').read(), ns)
D = f'/verif/seeded/{name}'
os.makedirs(D, exist_ok=True)
S = '/tmp/bugs/scratch'
if not os.path.exists(S):
    subprocess.check_call(['cp', '-a', '/repo', S])
def sh(c, cwd=S, **k):
    return subprocess.run(['bash', '-c', '. /verif/env.sh; ' + c], cwd=cwd, capture_output=True, text=True, **k)
head = sh('git rev-parse HEAD', '/repo').stdout.strip()
r = sh(f'git checkout -q -- . ; git fetch -q /repo HEAD; git checkout -q --detach {head} && git clean -fdq')
assert r.returncode == 0, r.stderr
open(f'{D}/demo_test.go', 'w').write(ns['DEMO'])
stub = ns.get('STUB', not ns['PKG'].startswith(('internal/cluster','internal/eventbus','internal/libs','pkg/stats','pkg/client','pkg/httpauth','internal/dist')))
mod = ''
if stub:
    shutil.copytree('/verif/stubs/sectools', f'{D}/sectools', dirs_exist_ok=True)
    mod = 'cp go.mod go.sum "$T/"\n(cd "$T" && go mod edit -modfile=x 2>/dev/null; go mod edit -replace "github.com/hyp3rd/sectools=$D/sectools" "$T/go.mod")\n'
    mod = 'cp go.mod go.sum "$T/"\ngo mod edit -replace "github.com/hyp3rd/sectools=$D/sectools" "$T/go.mod"\n'
tags = f"-tags {ns['TAGS']} " if ns.get('TAGS') else ''
demo = f'''#!/bin/bash
# exit 0 when the property's demonstration holds, nonzero otherwise (cwd: the repository)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
{mod}echo "{{\\"Replace\\": {{\\"$PWD/{ns['PKG']}/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}}}" > "$T/o.json"
go test {'-race ' if ns.get('RACE') else ''}{tags}-vet=off {'-modfile "$T/go.mod" ' if stub else ''}-overlay "$T/o.json" -run 'TestDemo' -count=1 -timeout 120s ./{ns['PKG']}
'''
open(f'{D}/demo.sh', 'w').write(demo)
os.chmod(f'{D}/demo.sh', 0o755)
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(f'{D}/meta.json', 'w'), indent=1)
fail = 0
r = sh(f'bash {D}/demo.sh')
print('demo clean rc', r.returncode)
if r.returncode: print((r.stdout+r.stderr)[-3000:]); fail = 1
for f, o, n in ns['EDITS']:
    p = f'{S}/{f}'; s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
open(f'{D}/patch.diff', 'w').write(sh('git diff').stdout)
for i in range(3):
    r = sh(f'bash {D}/demo.sh')
    print('demo patched rc', r.returncode, (r.stdout+r.stderr)[-400:] if i == 0 else '')
    if r.returncode == 0: fail = 1
r = sh('gofmt -l $(git diff --name-only); go build -modfile=/verif/gomod/go.mod ./... && go vet -modfile=/verif/gomod/go.mod $(git diff --name-only | xargs -n1 dirname | sort -u | sed s,^,./,)')
print('build rc', r.returncode, (r.stdout + r.stderr)[-1500:])
if r.returncode: fail = 1
r = sh('go test -modfile=/verif/gomod/go.mod -vet=off -count=1 ' + ns.get('TESTS', './...') + ' 2>&1 | grep -v "no test files" | grep -v ^ok')
bad = [l for l in r.stdout.splitlines() if l.startswith(('FAIL\t', '--- FAIL'))]
print('tests:', bad or 'all ok')
if any(x in l for l in bad if l.startswith('FAIL\t') for x in ('internal/cluster','internal/eventbus','pkg/client','pkg/httpauth','pkg/stats')): fail = 1
print('USABLE' if not fail else 'NOT USABLE')
sh('git checkout -q -- .')
if fail or nocheck: sys.exit(fail)
a = sh(f'git apply {D}/patch.diff', '/repo'); assert a.returncode == 0, a.stderr
try:
    for seed in ns.get('SEEDS', (1, 2)):
        r = sh(f"VERIF_SEED={seed} VERIF_TIER=quick timeout 900 python3 check.py {ns['PROP']}", '/verif')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('check seed', seed, 'rc', r.returncode, v, '' if v else (r.stdout + r.stderr)[-800:])
finally:
    sh('git checkout -q -- .', '/repo')
