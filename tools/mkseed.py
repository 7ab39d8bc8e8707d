#!/usr/bin/env python3
"""
mkseed.py [ID...]: (re)create /verif/seeded/<ID>/ from the definitions in
tools/seeds/*.py, confirming everything in a scratch copy of /repo: the change
applies, builds, passes the stable tests, and its demonstration passes on the
unchanged tree and fails with it. With --check also runs the property's quick check
against the changed copy (VERIF_REPO) and prints whether it is caught.
"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
SEEDS = {}
class Seed:
    def __init__ (self, id, property, edits, demo, needs, breaks):
        assert id not in SEEDS, id
        self.__dict__.update (id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)
        SEEDS[id] = self
for f in sorted (glob.glob (os.path.join (V, 'tools/seeds/*.py'))):
    exec (compile (open (f).read (), f, 'exec'), dict (Seed=Seed))

DEMOSH = '''#!/bin/sh
# exit 0: behaves as it should; run with cwd = repository
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''

def run (cmd, **kw):
    return subprocess.run (cmd, capture_output=True, text=True, **kw)

def main ():
    args = sys.argv[1:]
    check = '--check' in args
    onlycheck = '--only-check' in args
    ids = [a for a in args if not a.startswith ('--')] or list (SEEDS)
    bad = 0
    for i in ids:
        s = SEEDS[i]
        work = tempfile.mkdtemp (prefix='seed-')
        try:
            repo = os.path.join (work, 'repo')
            subprocess.check_call (['cp', '-a', '/repo', repo])
            run (['git', 'checkout', '-q', '--', '.'], cwd=repo)
            out = os.path.join (V, 'seeded', i)
            os.makedirs (out, exist_ok=True)
            if not onlycheck:
                open (os.path.join (out, 'demo.py'), 'w').write (s.demo.lstrip ('\n'))
                open (os.path.join (out, 'demo.sh'), 'w').write (DEMOSH)
                os.chmod (os.path.join (out, 'demo.sh'), 0o755)
                r = run (['sh', os.path.join (out, 'demo.sh')], cwd=repo)
                if r.returncode != 0:
                    print (i, 'DEMO FAILS ON UNCHANGED TREE', r.stdout[-1500:], r.stderr[-1500:]); bad += 1; continue
            for path, old, new in s.edits:
                p = os.path.join (repo, path)
                t = open (p).read ()
                assert t.count (old) == 1, (i, path, old, t.count (old))
                open (p, 'w').write (t.replace (old, new))
            if not onlycheck:
                d = run (['git', 'diff'], cwd=repo).stdout
                open (os.path.join (out, 'patch.diff'), 'w').write (d)
                json.dump (dict (property=s.property, needs=s.needs, what_it_breaks=s.breaks), open (os.path.join (out, 'meta.json'), 'w'), indent=1)
                r = run (['sh', os.path.join (out, 'demo.sh')], cwd=repo)
                if r.returncode == 0:
                    print (i, 'DEMO DOES NOT NOTICE THE CHANGE', r.stdout[-500:]); bad += 1
                t = run (['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'addopts=', 'lulua'], cwd=repo, env=dict (os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'))
                if ' passed' not in t.stdout or 'failed' in t.stdout or 'error' in t.stdout.lower ().split ('\n')[-2]:
                    print (i, 'TESTS FAIL', [l for l in t.stdout.split ('\n') if l.startswith ('FAILED')]); bad += 1
            if check or onlycheck:
                ev = os.path.join (work, 'verif')
                subprocess.check_call (['rsync', '-a', '--exclude', '.git', '--exclude', 'evidence', '--exclude', 'seeded', V + '/', ev]) if shutil.which ('rsync') else shutil.copytree (V, ev, ignore=shutil.ignore_patterns ('.git', 'evidence', 'seeded'))
                r = run (['python3', 'check.py', s.property, 'quick'], cwd=ev, env=dict (os.environ, VERIF_REPO=repo))
                caught = r.returncode == 1 and f'VIOLATION property={s.property}' in r.stdout
                msg = ''
                if caught:
                    lines = r.stdout.split ('\n')
                    msg = [l for l in lines if ': case ' in l][:1]
                    msg = (msg[0] if msg else '')[:150]
                print (i, s.property, 'caught' if caught else f'MISSED rc={r.returncode} {r.stderr[-800:]}', msg)
            else:
                print (i, 'ok')
        finally:
            shutil.rmtree (work)
        sys.stdout.flush ()
    return bad
sys.exit (main ())
