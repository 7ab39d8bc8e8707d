""" Shared by C07 and C08: running the corpus import, simulated and for real """
import io, json, tarfile, os, pickle, signal, subprocess, sys, time, itertools, functools, tempfile, shutil
from . import kit, ref, core, sched
from .core import Violation, need, same
from lulua import text as T, stats as S

LAYOUT = 'ar-lulua'
# short lines whose statistics are linearly independent, in all kinds of counts
LINES = ['\u0628\u0627\u062a\u0628 \u0628.\n', '\u0643\u0643\u0645 x\n', '\u0627\u0627\u0627\u0627 \u062c\n', '\n', '\u062f \u0647\u0646\u062a \u0645\n', '\u0645 ']

@functools.lru_cache (None)
def countsFor (text):
    real, lay = kit.shipped (LAYOUT)
    return ref.count (ref.typeText (lay, text)[0])

def tarOf (texts):
    b = io.BytesIO ()
    with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
        for i, x in enumerate (texts):
            ti = tarfile.TarInfo (f'{i}.txt')
            ti.size = len (x)
            t.addfile (ti, io.BytesIO (x))
    return b.getvalue ()

def total (texts):
    c = ref.Counts ()
    for t in texts:
        c.add (countsFor (t))
    return c

def results (data):
    out = []
    fd = io.BytesIO (data)
    while fd.tell () < len (data):
        out.append (pickle.load (fd))
    return out

def success (outcome):
    return outcome[0] in ('return', 'exit') and outcome[1] in (0, None)

def warm ():
    """ so that forked oracles do not have to parse everything again """
    S.makeCombined (kit.keyboard ())
    T.defaultLayouts[LAYOUT]
    T.defaultKeyboards['ibmpc105']

def checkOutput (data, texts, what):
    outs = results (data)
    got = ref.Counts ()
    for o in outs:
        got.add (kit.countsOf (o))
    d = kit.diff (got, total (texts))
    if d:
        raise Violation (f'{what}: {d}')
    return outs

def explore (argv, lines, rec, final, **kw):
    warm ()
    ex = sched.Explorer (T.write, argv, lines, **kw)
    try:
        ex.explore (final)
    except sched.Unsupported as e:
        # uses something this simulation does not know; real runs remain
        rec.extra['not simulated'] += 1
        rec.sample (f'not simulated: {core.short (str (e), 300)}')
        return None
    rec.step (ex.transitions)
    rec.trace (ex.finals)
    rec.extra['global states'] += ex.states
    rec.extra['oracle runs of the real code'] += ex.calls
    # every configuration has its own state space
    rec.states.update (core.hash64 (repr ((argv, lines, kw, i))) for i in range (ex.states))
    return ex

RUN = 'import sys; from lulua.text import write; sys.exit (write ())'

def environ ():
    env = dict (os.environ, PYTHONPATH=core.REPO, PYTHONHASHSEED='0')
    env.pop ('PYTHONPYCACHEPREFIX', None)
    return env

class Real:
    """ A real run in its own process group """
    def __init__ (self, argv, limit=150, env={}):
        self.dir = tempfile.mkdtemp (prefix='verif-mc-')
        self.limit = limit
        self.outp, self.errp = os.path.join (self.dir, 'out'), os.path.join (self.dir, 'err')
        self.p = subprocess.Popen (['/opt/venv/bin/python', '-W', 'ignore', '-c', RUN] + argv, stdin=subprocess.PIPE,
                stdout=open (self.outp, 'wb'), stderr=open (self.errp, 'wb'), cwd=self.dir, env=dict (environ (), **env),
                start_new_session=True, preexec_fn=lambda: (signal.signal (signal.SIGINT, signal.default_int_handler), signal.setitimer (signal.ITIMER_REAL, 0)))

    def err (self):
        return open (self.errp, 'rb').read ().decode ('utf-8', 'replace')

    def out (self):
        return open (self.outp, 'rb').read ()

    def feed (self, data):
        try:
            self.p.stdin.write (data)
            self.p.stdin.flush ()
        except BrokenPipeError:
            pass

    def eof (self):
        try:
            self.p.stdin.close ()
        except BrokenPipeError:
            pass

    def wait (self):
        try:
            return self.p.wait (self.limit)
        except subprocess.TimeoutExpired:
            raise Violation (f'the command did not terminate within {self.limit}s; stderr: {core.short (self.err ()[-600:])}')

    def alive (self):
        """ processes left in the session """
        out = []
        for d in os.listdir ('/proc'):
            if d.isdigit ():
                try:
                    st = open (f'/proc/{d}/stat').read ().rsplit (')', 1)[1].split ()
                except OSError:
                    continue
                if int (st[3]) == self.p.pid and st[0] not in 'ZX':
                    out.append (int (d))
        return out

    def __enter__ (self):
        return self

    def __exit__ (self, *a):
        try:
            os.killpg (self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.eof ()
        self.p.wait ()
        shutil.rmtree (self.dir, ignore_errors=True)
