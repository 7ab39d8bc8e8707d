#!/opt/venv/bin/python
"""
check.py ID [quick|thorough] [--replay FILE]

Decide property ID on the current tree of /repo. See DESIGN.md.
"""
import os, sys, json, time

HERE = os.path.dirname (os.path.abspath (__file__))

def reexec ():
    """ Own every source of nondeterminism before Python starts """
    want = dict (PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
            LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONUTF8='1', TZ='UTC', VERIF_MC_READY='1',
            # never read byte code belonging to an older version of a file
            PYTHONPYCACHEPREFIX='/nonexistent/verif-mc-pycache',
            OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env = dict (os.environ)
    env.update (want)
    env.pop ('PYTHONPATH', None)
    env.pop ('PYTHONSTARTUP', None)
    py = '/opt/venv/bin/python'
    os.execve (py, [py, os.path.abspath (__file__)] + sys.argv[1:], env)

def main ():
    import importlib, logging
    args = sys.argv[1:]
    replay = None
    if '--replay' in args:
        i = args.index ('--replay')
        replay = args[i+1]
        del args[i:i+2]
    prop = args[0]
    tier = args[1] if len (args) > 1 else os.environ.get ('VERIF_TIER', 'quick')
    assert tier in ('quick', 'thorough'), tier
    seed = int (os.environ.get ('VERIF_SEED', '1') or 1)

    sys.path.insert (0, HERE)
    from mc import core
    sys.path.insert (0, core.REPO)
    import lulua
    assert os.path.realpath (list (lulua.__path__)[0]) + os.sep == core.PKG, (list (lulua.__path__), core.PKG)
    logging.getLogger ().addHandler (logging.NullHandler ())
    logging.disable (logging.CRITICAL)
    core.memoYaml ()
    start = time.time ()
    try:
        mod = importlib.import_module (f'mc.props.{prop.lower ()}')
    except Exception as e:
        # a name this machinery needs and does not find is no violation, a
        # program which cannot even be started is
        if not core.inLulua (e):
            raise
        import traceback
        traceback.print_exc ()
        path = os.path.join (core.EVIDENCE, f'{prop}.replay.json')
        os.makedirs (core.EVIDENCE, exist_ok=True)
        with open (path, 'w') as fd:
            json.dump (dict (property=prop, suite='import', message=str (e)), fd)
        print (f'VIOLATION property={prop} replay={path}')
        return 1

    if replay:
        d = json.load (open (replay))
        suite = next (s for s in mod.SUITES if s.name == d['suite'])
        v = core.runCase (suite, unjson (d['case']), core.Rec ())
        print (f'replay of {replay}: ' + (f'VIOLATION\n{v}' if v else 'no violation'))
        return 1 if v else 0

    suites = [s for s in mod.SUITES if not getattr (s, 'thoroughOnly', False) or tier == 'thorough']
    per, viol, known, errors = core.explore (prop, suites, tier)
    wall = time.time ()-start

    total = core.Rec ()
    detail = {}
    samples = []
    for s in suites:
        if s.name not in per:
            continue
        rec, t = per[s.name]
        total.merge (rec)
        detail[s.name] = dict (bounds=s.bounds, cases=rec.cases, states=len (rec.states),
                transitions=rec.transitions, traces=rec.traces,
                distinct_outcomes=len (rec.outcomes), wall_s=round (t, 2), **rec.extra)
        samples.extend (f'{s.name}: {core.short (x, 300)}' for x in rec.samples[:2])
    ev = dict (property=prop, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict (states=len (total.states), transitions=total.transitions,
            traces_validated_against_impl=total.traces, evaluations=total.cases,
            distinct_outcomes=len (total.outcomes),
            samples=samples or ['none'],
            exhaustive=all (s.exhaustive for s in suites) and not viol and not errors,
            suites=detail, rule=mod.RULE),
        assumptions=list (getattr (mod, 'ASSUMPTIONS', [])),
        wall_s=round (wall, 2), violations=len (viol))
    os.makedirs (core.EVIDENCE, exist_ok=True)
    with open (os.path.join (core.EVIDENCE, f'{prop}.json'), 'w') as fd:
        json.dump (ev, fd, indent=1, ensure_ascii=True, default=str)

    for name, d in detail.items ():
        print (f'{prop} {name}: cases={d["cases"]} states={d["states"]} transitions={d["transitions"]} '
                f'traces={d["traces"]} outcomes={d["distinct_outcomes"]} {d["wall_s"]}s')
    for k, e in sorted (known.items ()):
        print (f'KNOWN-FINDING: property={prop} {e["what"]}')
    if viol:
        viol.sort (key=lambda x: len (repr (x[1])))
        name, case, msg, key = viol[0]
        path = os.path.join (core.EVIDENCE, f'{prop}.replay.json')
        with open (path, 'w') as fd:
            json.dump (dict (property=prop, suite=name, case=tojson (case), message=msg, key=key,
                replay_cmd=f'python3 {HERE}/check.py {prop} --replay {path}'), fd, indent=1, default=str)
        print (f'{name}: case {core.short (repr (case), 1500)}\n{core.short (msg, 4000)}')
        print (f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        print ('\n'.join (errors), file=sys.stderr)
        print (f'{prop}: internal error of the check', file=sys.stderr)
        return 2
    # a check that explored nothing must never be taken for a pass
    if not total.cases or not total.transitions:
        print (f'{prop}: nothing explored', file=sys.stderr)
        return 2
    return 0

def tojson (x):
    if isinstance (x, bytes):
        return {'__bytes__': x.hex ()}
    if isinstance (x, tuple):
        return {'__tuple__': [tojson (y) for y in x]}
    if isinstance (x, list):
        return [tojson (y) for y in x]
    if isinstance (x, dict):
        return {'__dict__': [[tojson (k), tojson (v)] for k, v in x.items ()]}
    return x

def unjson (x):
    if isinstance (x, list):
        return [unjson (y) for y in x]
    if isinstance (x, dict):
        if '__bytes__' in x:
            return bytes.fromhex (x['__bytes__'])
        if '__tuple__' in x:
            return tuple (unjson (y) for y in x['__tuple__'])
        if '__dict__' in x:
            return {unjson (k): unjson (v) for k, v in x['__dict__']}
    return x

if __name__ == '__main__':
    if os.environ.get ('VERIF_MC_READY') != '1':
        reexec ()
    try:
        rc = main ()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc ()
        rc = 2
    sys.stdout.flush ()
    sys.exit (rc)
