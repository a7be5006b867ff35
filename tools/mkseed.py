#!/usr/bin/env python3
"""Helper used while planting bugs: mk(id, prop, edits, needs, breaks, pkg, demo)
makes the patch in a scratch copy of /repo, confirms that it builds, that the
stable tests pass and that the demonstration tells the trees apart, and writes
/verif/seeded/<id>/. No check uses this file."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw/repo'
STABLE = 'TestFlatDirectory|TestFlatOmitPrefixStorageLayout|TestHashAndIdNTuple|TestHashedNTuple|TestNTupleOmitPrefixStorageLayout'
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
{ printf '{"Replace": {'; sep=
for f in "$here"/*_test.go.txt; do printf '%%s"%%s/%(pkg)s/zz_%%s": "%%s"' "$sep" "$repo" "$(basename "$f" .txt)" "$f"; sep=', '; done
printf '}}'; } > "$tmp/overlay.json"
TMPDIR=$tmp timeout 280 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestSeededDemo$' ./%(pkg)s
'''
def sh(c, cwd=W):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; cd %s; %s' % (cwd, c)], capture_output=True, text=True)
def refresh():
    os.makedirs('/tmp/seedw', exist_ok=True)
    head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    if os.path.isdir(W):
        h2 = subprocess.run(['git', '-C', W, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
        if h2 == head:
            sh('git checkout -q -- .'); return
        shutil.rmtree('/tmp/seedw/repo')
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    sh('git checkout -q -- .')
def mk(id, prop, edits, needs, breaks, pkg, demo, extra=()):
    refresh()
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    for path, old, new in edits:
        s = open(W + '/' + path).read()
        assert s.count(old) == 1, (id, 'occurrences', s.count(old), old)
        open(W + '/' + path, 'w').write(s.replace(old, new))
    r = sh('gofmt -l %s; go build ./pkg/ocfl ./pkg/extension' % ' '.join(sorted({e[0] for e in edits})))
    assert r.returncode == 0 and not r.stdout.strip(), (id, 'build', r.stdout, r.stderr)
    open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
    open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg)); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go.txt', 'w').write(demo.lstrip('\n'))
    for n in extra:  # helper files of the harness, in the package of the demo
        open(d + '/' + os.path.basename(n).replace('.go', '_test.go.txt'), 'w').write(open(V + '/harness/' + n).read().replace('package PKG', 'package ' + os.path.basename(pkg)))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh("go test -vet=off -count=1 -run '^(%s)$' ./pkg/extension" % STABLE)
    assert r.returncode == 0, (id, 'stable tests', r.stdout[-2000:])
    r = sh('bash %s/demo.sh' % d)
    assert r.returncode != 0, (id, 'demo passes with the patch')
    assert '--- FAIL' in r.stdout or 'panic' in r.stdout + r.stderr, (id, 'demo does not fail properly', r.stdout[-3000:], r.stderr[-2000:])
    sh('git checkout -q -- .')
    r = sh('bash %s/demo.sh' % d)
    assert r.returncode == 0, (id, 'demo fails on the base', r.stdout[-3000:], r.stderr[-2000:])
    print('ok', id)
