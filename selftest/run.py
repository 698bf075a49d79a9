#!/usr/bin/env python3
"""Development aid (not a registered check): applies small edits to copies of
/repo and shows which checks raise an alarm.

mutants.py lists breaking edits (with the property they break) and
refactorings that must stay quiet."""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mutants import MUTANTS
BIN = os.environ.get('GRCHECK', '/tmp/grcheck')

def run(m, tests):
    name, expect, edits = m
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    r = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', 'node_modules', 'mocks_'))
        for f, a, b in edits:
            p = os.path.join(r, f)
            if a is None:
                open(p, 'w').write(b)
                continue
            s = open(p).read()
            if a not in s:
                return name, expect, 'NOT APPLICABLE: %s %r' % (f, a[:60]), ''
            open(p, 'w').write(s.replace(a, b, 1))
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
        v = ''
        if tests:
            t = subprocess.run(['go', 'test', './...'], cwd=r, env=env, capture_output=True, text=True, errors='replace')
            v = '' if t.returncode == 0 else ' TESTS-FAIL ' + ' '.join(l for l in t.stdout.splitlines() if l.startswith('--- FAIL') or 'build failed' in l)[:200] + t.stderr[:300]
        q = subprocess.run([BIN, '-p', 'all', '-repo', r, '-out', os.path.join(d, 'ev')], capture_output=True, text=True, errors='replace')
        bad = [l.split('property=')[1].split()[0] for l in q.stdout.splitlines() if l.startswith('VIOLATION')]
        return name, expect, bad, v + '\n' + '\n'.join('      ' + l for l in q.stdout.splitlines() if not l.startswith('OK') and not l.startswith('VIOLATION'))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    tests = '-t' in sys.argv
    verbose = '-v' in sys.argv
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    ms = [m for m in MUTANTS if not pats or any(p in m[0] for p in pats)]
    n = miss = 0
    with cf.ThreadPoolExecutor(6) as ex:
        for name, expect, bad, out in ex.map(lambda m: run(m, tests), ms):
            n += 1
            if isinstance(bad, str):
                print('??  ', name, bad); miss += 1
                continue
            ok = (not expect and not bad) or (expect and set(expect) & set(bad))
            if not ok: miss += 1
            print('ok  ' if ok else 'MISS' if expect else 'FALSE', name, 'expect', expect, 'got', bad, out.splitlines()[0] if out else '')
            if verbose or not ok:
                print('\n'.join(out.splitlines()[1:8]))
    print(n, 'edits,', miss, 'wrong')
main()
