"""
Small explicit-state / stateless exploration framework used by every check.

A property module (mc/props/<id>.py) exports a list SUITES.  A suite owns a
finite space of *cases* (an input, a configuration, an operation history, a
schedule prefix, ...), enumerates it completely and deterministically, and runs
the real code from /repo on every case in lock step with a reference model.

    suite.cases (tier)       -> iterator over JSON-able cases
    suite.check (case, rec)  -> raises Violation if the property is broken

`rec` counts what was really done: distinct canonical reference states,
transitions (steps compared with the implementation) and complete traces
replayed on the implementation.
"""

import collections, hashlib, io, json, multiprocessing, os, pickle, resource
import signal, sys, time, traceback

REPO = os.environ.get ('VERIF_REPO', '/repo')
PKG = os.path.join (os.path.realpath (REPO), 'lulua') + os.sep
VERIF = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
EVIDENCE = os.path.join (VERIF, 'evidence')

class Violation (Exception):
    """ The property does not hold for this case. `key` identifies the
    failure for the known-findings file. """
    def __init__ (self, msg, key=None):
        super ().__init__ (msg)
        self.key = key

class HarnessError (Exception):
    """ The machinery itself is broken; never reported as a violation """

class Hang (BaseException):
    pass

def need (cond, msg, key=None):
    if not cond:
        raise Violation (msg () if callable (msg) else msg, key)

def same (got, want, what, key=None):
    if got != want:
        raise Violation (f'{what}: got {short (got)}, expected {short (want)}', key)

def close (got, want, what, tol=1e-9, key=None):
    if not abs (got-want) <= tol*max (1.0, abs (want)):
        raise Violation (f'{what}: got {got!r}, expected {want!r}', key)

def short (x, n=600):
    s = x if isinstance (x, str) else repr (x)
    return s if len (s) <= n else s[:n] + f'...({len (s)})'

def misshapen (e):
    """ Is this exception of the harness due to a result of the code under
    test which is not of the documented kind (None instead of an iterable,
    too few values, text that does not parse)?  Missing names and failing
    system calls are failures of the harness instead. """
    if isinstance (e, AttributeError):
        return getattr (e, 'obj', 0) is None
    return isinstance (e, (TypeError, ValueError, LookupError, StopIteration, ArithmeticError))

def inLulua (exc):
    """ Did the exception pass through the code under test? """
    tb = exc.__traceback__
    seen = set ()
    while exc is not None and id (exc) not in seen:
        seen.add (id (exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = os.path.realpath (tb.tb_frame.f_code.co_filename)
            if fn.startswith (PKG):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False

class Rec:
    """ Measured coverage """
    def __init__ (self):
        self.states = set ()
        self.outcomes = set ()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.extra = collections.Counter ()
        self.samples = []

    def state (self, key):
        self.states.add (hash64 (key))

    def outcome (self, key):
        self.outcomes.add (hash64 (key))

    def step (self, n=1):
        self.transitions += n

    def trace (self, n=1):
        self.traces += n

    def sample (self, s, limit=2):
        if len (self.samples) < limit:
            self.samples.append (s)

    def merge (self, o):
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.transitions += o.transitions
        self.traces += o.traces
        self.cases += o.cases
        self.extra.update (o.extra)
        self.samples.extend (o.samples)

def hash64 (key):
    if not isinstance (key, (bytes, str)):
        key = repr (key)
    if isinstance (key, str):
        key = key.encode ('utf-8', 'surrogatepass')
    return hashlib.blake2b (key, digest_size=8).digest ()

class Suite:
    name = 'unnamed'
    # what the bounds are, for evidence
    bounds = ''
    # wall-clock limit for a single case, far above anything legitimate
    caseLimit = 120
    parallel = True
    # does the suite enumerate its space completely?
    exhaustive = True

    def cases (self, tier):
        raise NotImplementedError

    def check (self, case, rec):
        raise NotImplementedError

class Findings:
    def __init__ (self, prop):
        self.keys = {}
        path = os.path.join (VERIF, 'known_findings.json')
        if os.path.exists (path):
            for e in json.load (open (path))['findings']:
                if e['status'] == 'known' and e['property'] == prop:
                    self.keys[e['key']] = e

def _alarm (signum, frame):
    raise Hang ()

def runCase (suite, case, rec):
    """ Run a case, translate what happened into None or a Violation """
    signal.signal (signal.SIGALRM, _alarm)
    signal.setitimer (signal.ITIMER_REAL, suite.caseLimit)
    try:
        rec.cases += 1
        suite.check (case, rec)
    except Violation as e:
        return e
    except Hang as e:
        return Violation (f'no answer within {suite.caseLimit}s of wall-clock time:\n'
                + ''.join (traceback.format_tb (e.__traceback__)[-6:]))
    except MemoryError as e:
        return Violation ('memory exhausted (4 GB) on a tiny input')
    except RecursionError as e:
        if inLulua (e):
            return Violation ('unbounded recursion')
        raise
    except BaseException as e:
        signal.setitimer (signal.ITIMER_REAL, 0)
        if isinstance (e, HarnessError):
            raise
        if not inLulua (e):
            if misshapen (e):
                return Violation ('the code under test returned something that cannot be read as the documented kind of result: '
                        + ''.join (traceback.format_exception (type (e), e, e.__traceback__)[-4:]))
            raise
        return Violation ('unexpected exception from the code under test: '
                + ''.join (traceback.format_exception (type (e), e, e.__traceback__)[-8:]))
    finally:
        signal.setitimer (signal.ITIMER_REAL, 0)
    return None

def _worker (suites, tier, k, n, stop, conn, known):
    try:
        resource.setrlimit (resource.RLIMIT_AS, (4<<30, 4<<30))
        out = []
        for si, suite in enumerate (suites):
            rec = Rec ()
            t = time.time ()
            viol = []
            knownHit = set ()
            for i, case in enumerate (suite.cases (tier)):
                if suite.parallel:
                    if i % n != k:
                        continue
                elif k != si % n:
                    break
                if stop.value:
                    break
                v = runCase (suite, case, rec)
                if v is not None:
                    if v.key is not None and v.key in known:
                        knownHit.add (v.key)
                        continue
                    viol.append ((suite.name, case, str (v), v.key))
                    stop.value = 1
                    break
            out.append ((suite.name, rec, viol, knownHit, time.time ()-t))
        conn.send (('ok', out))
    except BaseException as e:
        stop.value = 1
        conn.send (('err', ''.join (traceback.format_exception (type (e), e, e.__traceback__))))
    finally:
        conn.close ()

def explore (prop, suites, tier, jobs=None):
    """ Run all cases of all suites on all cores """
    jobs = jobs or int (os.environ.get ('VERIF_JOBS', os.cpu_count () or 1))
    known = Findings (prop).keys
    ctx = multiprocessing.get_context ('fork')
    stop = ctx.Value ('i', 0, lock=False)
    procs = []
    for k in range (jobs):
        a, b = ctx.Pipe (False)
        p = ctx.Process (target=_worker, args=(suites, tier, k, jobs, stop, b, known))
        p.start ()
        b.close ()
        procs.append ((p, a))
    results = []
    errors = []
    for p, a in procs:
        try:
            kind, payload = a.recv ()
        except EOFError:
            kind, payload = 'err', f'worker died, exit code {p.exitcode}'
        p.join ()
        (results if kind == 'ok' else errors).append (payload)
    per = {}
    viol = []
    knownHit = {}
    for out in results:
        for name, rec, v, kh, t in out:
            if name not in per:
                per[name] = [Rec (), 0]
            per[name][0].merge (rec)
            per[name][1] = max (per[name][1], t)
            viol.extend (v)
            for x in kh:
                knownHit[x] = known[x]
    return per, viol, knownHit, errors

# ---------------------------------------------------------------- helpers

_yamlCache = {}
def memoYaml ():
    """ Parsing YAML dominates everything else. Cache the parse result (by
    content), but hand out a fresh copy every time. """
    import yaml
    orig = yaml.safe_load
    if getattr (orig, '_memo', False):
        return
    loader = getattr (yaml, 'CSafeLoader', yaml.SafeLoader)
    def safe_load (stream):
        if hasattr (stream, 'read'):
            data = stream.read ()
        else:
            data = stream
        k = data if isinstance (data, (str, bytes)) else bytes (data)
        if k not in _yamlCache:
            _yamlCache[k] = pickle.dumps (orig (data))
        return pickle.loads (_yamlCache[k])
    safe_load._memo = True
    yaml.safe_load = safe_load

class CliResult:
    __slots__ = ('ret', 'out', 'err', 'exc')

def cli (func, argv, stdin=b'', cwd=None, catch=False):
    """ Run a console entry point in-process """
    r = CliResult ()
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    outb, errb = io.BytesIO (), io.BytesIO ()
    olddir = os.getcwd () if cwd else None
    if cwd:
        os.chdir (cwd)
    sys.argv = ['lulua'] + list (argv)
    sys.stdin = io.TextIOWrapper (io.BytesIO (stdin), encoding='utf-8')
    sys.stdout = io.TextIOWrapper (outb, encoding='utf-8')
    sys.stderr = io.TextIOWrapper (errb, encoding='utf-8')
    r.ret = r.exc = None
    try:
        try:
            r.ret = func ()
        except SystemExit as e:
            r.ret = e.code
            r.exc = e
        except Exception as e:
            if not catch:
                raise
            r.exc = e
        sys.stdout.flush ()
        sys.stderr.flush ()
        r.out = outb.getvalue ()
        r.err = errb.getvalue ()
    finally:
        # keep the buffers alive until we are done
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        if olddir:
            os.chdir (olddir)
    return r

def deBruijn (k, n):
    """ cyclic sequence over range (k) containing every word of length n once """
    a = [0]*k*n
    out = []
    def db (t, p):
        if t > n:
            if n % p == 0:
                out.extend (a[1:p+1])
        else:
            a[t] = a[t-p]
            db (t+1, p)
            for j in range (a[t-p]+1, k):
                a[t] = j
                db (t+1, t)
    db (1, 1)
    return out

def words (alphabet, maxlen, minlen=0):
    """ All sequences over alphabet, shortest first """
    import itertools
    for n in range (minlen, maxlen+1):
        yield from itertools.product (alphabet, repeat=n)

class Scratch:
    """ Scratch directory, removed at exit of the with block """
    def __enter__ (self):
        import tempfile
        self.path = tempfile.mkdtemp (prefix='verif-mc-')
        return self.path

    def __exit__ (self, *a):
        import shutil
        shutil.rmtree (self.path, ignore_errors=True)
