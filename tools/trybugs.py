#!/usr/bin/env python3
"""
trybugs.py SPEC.py [ID...]: evaluation tool (no check uses it). SPEC.py defines
BUGS = [(id, property, file, old, new) or (id, property, [(file, old, new), ...])]; every change is made in
a copy of the repository, run against its tests and, if these pass, against the
quick check of its property.
"""
import json, multiprocessing, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
REPO = '/repo'

def one (bug):
    bid, prop, *edits = bug
    edits = edits[0] if len (edits) == 1 else [tuple (edits)]
    work = tempfile.mkdtemp (prefix='try-')
    try:
        repo, ev = os.path.join (work, 'repo'), os.path.join (work, 'verif')
        subprocess.check_call (['cp', '-a', REPO, repo])
        shutil.copytree (V, ev, ignore=shutil.ignore_patterns ('.git', 'evidence', 'seeded'))
        for f, old, new in edits:
            p = os.path.join (repo, 'lulua', f)
            s = open (p).read ()
            if s.count (old) != 1:
                return bid, prop, f'SPEC {f}: {s.count (old)} matches'
            open (p, 'w').write (s.replace (old, new))
        env = dict (os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=repo, VERIF_JOBS='2', VERIF_SEED='1')
        t = subprocess.run (['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'addopts=', 'lulua'], cwd=repo, env=dict (env, PYTHONPATH=repo), capture_output=True, text=True)
        tests = 'tests pass' if t.returncode == 0 else 'TESTS FAIL'
        out = []
        for p in prop.split (','):
            r = subprocess.run (['python3', '-W', 'ignore', 'check.py', p, 'quick'], cwd=ev, env=env, capture_output=True, text=True)
            v = [l for l in (r.stdout+r.stderr).split ('\n') if 'VIOLATION' in l or 'violat' in l.lower ()]
            out.append (f'{p}: ' + {0: 'MISSED', 1: 'caught'}.get (r.returncode, f'BROKEN {r.returncode} {r.stderr[-300:]}'))
        return bid, prop, f'{tests}; ' + '; '.join (out)
    finally:
        shutil.rmtree (work, ignore_errors=True)

def main ():
    bugs = runpy.run_path (sys.argv[1])['BUGS']
    want = set (sys.argv[2:])
    with multiprocessing.Pool (4) as pool:
        for r in pool.imap_unordered (one, [b for b in bugs if not want or b[0] in want]):
            print (*r, flush=True)

if __name__ == '__main__':
    main ()
