#!/usr/bin/env python3
"""Applies mechanical rewrites that keep the behaviour (grcheck/refactor) to scratch copies of /repo, first everywhere at
once, then, if a check is not quiet, function by function to find which. auto.py [-k] [NAME...]"""
import os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
R = os.environ.get('REFACTOR', '/tmp/refactor'); G = os.environ.get('GRCHECK', '/tmp/grcheck')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
ALL = 'invert nest init index args ret cond flip morgan split literal block delegate single named switch concat append labels continue'.split()
TESTS = '-t' in sys.argv

def sh(cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def one(t, file='', fn=''):
    d = tempfile.mkdtemp(prefix='auto-')
    try:
        w = d + '/w'
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('node_modules', '.git'))
        p = sh([R, '-dir', w, '-t', t, '-file', file, '-fn', fn])
        if p.returncode != 0:
            return 'ERR ' + p.stdout[-300:], ''
        fns = p.stdout.split('\n')
        b = sh(['go', 'build', '-o', d + '/bin', '.'], cwd=w)
        if b.returncode != 0:
            return 'BUILD ' + b.stdout[:600], ''
        if TESTS and not fn:
            q = sh(['go', 'test', './...'], cwd=w)
            for l in q.stdout.split('\n'):
                if l.startswith('--- FAIL') or l.startswith('FAIL'):
                    print('   test:', l[:120])
        o = sh([G, '-p', 'all', '-repo', w, '-out', d + '/ev']).stdout
        bad = [l for l in o.split('\n') if l and not l.startswith('OK ')]
        return '\n'.join(bad), fns
    finally:
        shutil.rmtree(d)

names = [a for a in sys.argv[1:] if not a.startswith('-')] or ALL
for t in names:
    bad, fns = one(t)
    print(t, 'functions:', len(fns) - 1 if fns else 0, 'quiet' if not bad else 'NOT QUIET'); sys.stdout.flush()
    if bad.startswith('ERR') or bad.startswith('BUILD'):
        print(bad)
    if not bad or not fns:
        continue
    found = False
    files = {}
    for l in fns:
        if ':' in l:
            f, n = l.rsplit(' ', 1)[0].split(':')
            files.setdefault(f, []).append(n)
    with ThreadPoolExecutor(6) as ex:
        fl = sorted(files)
        hit = [f for f, (b, _) in zip(fl, ex.map(lambda f: one(t, f), fl)) if b]
        jobs = [(t, f, n) for f in hit for n in files[f]]
        for j, (b, _) in zip(jobs, ex.map(lambda j: one(*j), jobs)):
            if b:
                found = True
                print('  ', j[1], j[2]); print('\n'.join('        ' + x[:230] for x in b.split('\n')[:6])); sys.stdout.flush()
    if not found:
        print('   only together:', hit, bad[:1500])
