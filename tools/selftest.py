#!/usr/bin/env python3
"""Regression suite of the analyzer: small edits of /repo, kept in
/verif/selftest/*.txt, each either a defect some check has to report or a
refactoring all checks have to stay quiet on. Not part of the checks.

usage: selftest.py [-j N] [-bin VF] [pattern ...]
File format: entries separated by a line of '%%%%'; an entry is
  name: caught C01 [C02 ...]     every listed property must be violated
  name: quiet C01 [C02 ...]      every listed property must hold
  name: missed C01               known miss (reported if it is caught now)
  @file
  old
  ====
  new
  ####        (next block; '@file' optional)
"""
import sys, os, re, subprocess, shutil, glob, argparse, fcntl
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=6)
ap.add_argument('-bin', default='/tmp/vf')
ap.add_argument('-v', action='store_true')
ap.add_argument('pat', nargs='*')
o = ap.parse_args()
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='1', GOMAXPROCS='3')
entries = []
for f in sorted(glob.glob(root + '/selftest/*.txt')):
    for e in open(f).read().split('\n%%%%\n'):
        e = e.strip('\n')
        if not e:
            continue
        head, body = e.split('\n', 1)
        name, exp = head.split(':')
        exp = exp.split()
        name = os.path.basename(f)[:-4] + '/' + name
        if o.pat and not any(p in name or p in exp for p in o.pat):
            continue
        entries.append((name, exp[0], exp[1:], body))

def slot():
    """a scratch directory of its own; fixed names let Go's build cache work"""
    for i in range(64):
        f = open(f'/tmp/stslot{i}.lock', 'w')
        try:
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            f.close()
            continue
        d = f'/tmp/stslot{i}'
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        return d, f

def run(ent):
    name, kind, props, body = ent
    d, lock = slot()
    try:
        subprocess.run(['rsync', '-a', '--exclude', '.git', '/repo/', d + '/repo/'] if shutil.which('rsync') else ['cp', '-a', '/repo', d + '/repo'], check=True)
        ff = None
        for blk in body.split('\n####\n'):
            if blk.startswith('@'):
                l, blk = blk.split('\n', 1)
                ff = l[1:].strip()
            old, new = (blk + '\n').split('\n====\n')
            p = d + '/repo/' + ff
            s = open(p).read()
            if old not in s:
                return name, 'BADPATCH', old[:80]
            open(p, 'w').write(s.replace(old, new.rstrip('\n'), 1))
        b = subprocess.run('go build -o /dev/null .', shell=True, cwd=d + '/repo', env=env, capture_output=True, text=True)
        if b.returncode:
            return name, 'NOBUILD', b.stderr[-400:]
        os.makedirs(d + '/verif/evidence')
        r = subprocess.run([o.bin, '-repo', d + '/repo', '-verif', d + '/verif', '-prop', ','.join(props)], env=env, capture_output=True, text=True, timeout=1500)
        out = r.stdout + r.stderr
        v = set(re.findall(r'VIOLATION property=(C\d+)', out))
        okp = set(re.findall(r'OK property=(C\d+)', out))
        if kind == 'caught':
            bad = [p for p in props if p not in v]
        elif kind == 'missed':
            bad = [p for p in props if p in v]
        elif props == ['all']:
            bad = sorted(v) or (['all'] if r.returncode else [])
        else:
            bad = [p for p in props if p not in okp]
        return name, 'ok' if not bad else 'FAIL ' + kind + ' ' + ' '.join(bad), out if bad or o.v else ''
    finally:
        shutil.rmtree(d)
        lock.close()

n = bad = 0
with ThreadPoolExecutor(o.j) as ex:
    for name, st, out in ex.map(run, entries):
        n += 1
        if st != 'ok':
            bad += 1
        if st != 'ok' or o.v:
            out = '\n'.join(l for l in out.split('\n') if o.v or not l.startswith('OK '))
            print(name, st, '\n   ', out[:1500].replace('\n', '\n    '), flush=True)
print(f'{n} entries, {bad} not as expected')
sys.exit(1 if bad else 0)
