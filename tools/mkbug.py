#!/usr/bin/env python3
"""mkbug.py SPEC.py [id...]: turns bug specifications into /verif/seeded/<id>/ after confirming each in a
scratch copy of /repo: applies, builds, existing tests pass, demo passes without and fails with it.
SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], pkg, demo)]."""
import sys, os, subprocess, json, shutil, tempfile, runpy
V = '/verif/seeded'
R = os.environ.get('REPO', '/repo')
BASE = '477666a'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOCACHE='/root/.cache/go-build')
DEMO = '''#!/bin/bash
# exit 0 when the behaviour holds, non-zero when it is broken; run with cwd /repo
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test %(race)s-vet=off -count=1 -timeout 250s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    spec = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    assert sh('git status --porcelain', R).stdout == ''
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
    for b in spec:
        if want and b['id'] not in want: continue
        wt = tempfile.mkdtemp(prefix='bug.')
        try:
            shutil.rmtree(wt); shutil.copytree(R, wt, symlinks=True)
            bad = None
            orig = True
            for f, old, new in b['edits']:
                p = os.path.join(wt, f); s = open(p).read()
                if s.count(old) != 1: bad = f'{f}: {s.count(old)} matches for {old!r}'; break
                # original lines?
                base = sh(f'git show {BASE}:{f}', wt).stdout
                oldl, newl = old.split('\n'), new.split('\n')
                changed = [l for l in oldl if l not in newl]
                if changed and not all(l in base.split('\n') for l in changed): orig = False
                open(p, 'w').write(s.replace(old, new))
            if bad: print(b['id'], 'EDIT', bad); continue
            d = os.path.join(V, b['id']); os.makedirs(d, exist_ok=True)
            diff = sh('git diff', wt).stdout
            open(f'{d}/patch.diff', 'w').write(diff)
            open(f'{d}/demo_test.go', 'w').write(b['demo'].lstrip('\n'))
            open(f'{d}/demo.sh', 'w').write(DEMO % dict(pkg=b['pkg'], race='-race ' if b.get('race') else ''))
            os.chmod(f'{d}/demo.sh', 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
            r = sh('go build ./... && go vet ./mqttp >/dev/null 2>&1; go test -vet=off -count=1 ./... 2>&1', wt)
            build = sh('go build ./...', wt).returncode
            tests = r.returncode
            fails = [l for l in r.stdout.split('\n') if 'FAIL' in l][:4]
            d0 = sh(f'{d}/demo.sh', R); d1 = sh(f'{d}/demo.sh', wt)
            ok = build == 0 and tests == 0 and d0.returncode == 0 and d1.returncode != 0 and 'build failed' not in d1.stdout
            print(b['id'], b['property'], 'OK' if ok else 'BAD', '' if orig else 'NOT-ALL-ORIGINAL', f'build={build} tests={tests} demo={d0.returncode}/{d1.returncode}')
            if not ok: print(fails, d0.stdout[-1500:] if d0.returncode else '', d1.stdout[-800:])
        finally:
            shutil.rmtree(wt, ignore_errors=True)
main()
