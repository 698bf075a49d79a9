#!/usr/bin/env python3
"""Development aid (not a registered check): writes /verif/seeded/<id>/ from seeds.py and confirms each planted bug in
a scratch copy: builds, passes the tests, demo passes without and fails with the change. Prints which checks alarm."""
import sys, os, shutil, subprocess, tempfile, json, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seeds import SEEDS
BIN = os.environ.get('GRCHECK', '/tmp/grcheck')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', TZ='UTC')
DEMO = '''#!/bin/bash
# Runs the Go test beside this file inside the package named in its first line.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/usr/local/go/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local TZ=UTC
mkdir -p client/dist/assets
[ -e client/dist/assets/.dummy ] || touch client/dist/assets/.dummy
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
pkg=$(head -1 "$here/planted_demo_test.go" | sed 's,^// pkg: *,,')
printf '{"Replace": {"%s/%s/planted_demo_test.go": "%s/planted_demo_test.go"}}' "$repo" "$pkg" "$here" > "$tmp/overlay.json"
timeout 240 go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestPlantedDemo$' "./$pkg"
'''

def sh(cmd, cwd, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr

def one(s):
    sid, prop, needs, breaks, pkg, demo, edits = s
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    r = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('node_modules'))
        sh(['git', 'checkout', '-q', '--', '.'], r)
        out = '/verif/seeded/' + sid
        os.makedirs(out, exist_ok=True)
        open(out + '/planted_demo_test.go', 'w').write('// pkg: ' + pkg + '\n' + demo.lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        msgs = []
        rc, o = sh(['bash', out + '/demo.sh'], r)
        if rc != 0: msgs.append('demo FAILS on the unchanged tree: ' + o[-1500:])
        for f, a, b in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            if a not in t: return sid, prop, ['NOT APPLICABLE %s %r' % (f, a[:50])], []
            open(p, 'w').write(t.replace(a, b, 1))
        rc, diff = sh(['git', 'diff'], r)
        open(out + '/patch.diff', 'w').write(diff)
        cur = ''
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur = sh(['git', 'show', 'a8edfc9:' + l[6:]], '/repo')[1].splitlines()
            elif l.startswith('-') and l[1:].strip() and l[1:] not in cur: msgs.append('NOT ORIGINAL: ' + l)
        rc, o = sh(['go', 'test', '-vet=off', './...'], r)
        if rc != 0: msgs.append('TESTS FAIL: ' + '\n'.join(l for l in o.splitlines() if 'FAIL' in l or '.go:' in l)[:800])
        rc, o = sh(['bash', out + '/demo.sh'], r)
        if rc == 0: msgs.append('demo PASSES with the change')
        elif 'build failed' in o: msgs.append('demo does not build: ' + o[-500:])
        rc, o = sh([BIN, '-p', 'all', '-repo', r, '-out', d + '/ev'], '/tmp')
        bad = [l.split('property=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')]
        return sid, prop, msgs, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)

pats = sys.argv[1:]
with cf.ThreadPoolExecutor(3) as ex:
    for sid, prop, msgs, bad in ex.map(one, [s for s in SEEDS if not pats or any(p in s[0] for p in pats)]):
        print('CAUGHT' if prop in bad else 'MISSED', sid, prop, bad, *msgs)
