"""
Runs the import command in-process, one process after another: children run when
the main process waits for them. For properties which do not depend on the
schedule (C07 shows that there is no difference). If this is not possible
(a process which polls is started before the others, for instance) they become
threads instead.
"""
import collections, io, queue, sys, os, multiprocessing, threading
from .core import PKG, HarnessError, cli

class Stuck (BaseException):
    """ no process can continue """

class Q:
    pending = None
    def __init__ (self, maxsize=0, **kw):
        self.d = collections.deque ()
    def put (self, o, block=True, timeout=None):
        self.d.append (o)
    put_nowait = put
    def get (self, block=True, timeout=None):
        while not self.d:
            if not P.runOne ():
                P.idle += 1
                if (timeout is not None or not block) and P.idle < 100:
                    raise queue.Empty
                raise Stuck ()
        return self.d.popleft ()
    def get_nowait (self):
        return self.get (False)
    def empty (self):
        return not self.d
    def full (self):
        return False
    def qsize (self):
        return len (self.d)
    def close (self):
        pass
    join_thread = cancel_join_thread = close

class P:
    todo = []
    idle = 0
    def __init__ (self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self.target, self.args, self.kwargs, self.name, self.daemon = target, args, kwargs, name, daemon
        self.done = False
        self.pid = 1
        self.exitcode = None
    def start (self):
        P.todo.append (self)
    def run (self):
        self.target (*self.args, **self.kwargs)
    @staticmethod
    def runOne ():
        if not P.todo:
            return False
        p = P.todo.pop (0)
        p.run ()
        p.done = True
        p.exitcode = 0
        return True
    def join (self, timeout=None):
        while not self.done and P.runOne ():
            pass
    def is_alive (self):
        return not self.done
    def terminate (self):
        self.done = True
    kill = terminate

class ThreadQ (queue.Queue):
    def __init__ (self, maxsize=0, **kw):
        super ().__init__ (0)
    def get (self, block=True, timeout=None):
        if block and timeout is None:
            try:
                return super ().get (True, 120)
            except queue.Empty:
                raise HarnessError ('simulation: nothing to get')
        return super ().get (block, timeout)
    def close (self):
        pass
    join_thread = cancel_join_thread = close

class ThreadP (P):
    def start (self):
        self.thread = threading.Thread (target=self._run, daemon=True)
        self.thread.start ()
    def _run (self):
        try:
            self.run ()
        finally:
            self.done = True
            self.exitcode = 0
    def join (self, timeout=None):
        self.thread.join (timeout)

def run (main, argv, stdin, cwd=None):
    """ returns cli result """
    try:
        return _run (main, argv, stdin, cwd, P, Q)
    except Stuck:
        return _run (main, argv, stdin, cwd, ThreadP, ThreadQ)

def _run (main, argv, stdin, cwd, P, Q):
    saved = []
    def patch (m, a, new):
        saved.append ((m, a, getattr (m, a)))
        setattr (m, a, new)
    oldP, oldQ = multiprocessing.Process, multiprocessing.Queue
    P.todo = []
    P.idle = 0
    import signal
    sig = signal.getsignal (signal.SIGINT)
    try:
        for m in list (sys.modules.values ()):
            fn = getattr (m, '__file__', None)
            if fn and os.path.realpath (fn).startswith (PKG):
                for a, v in list (vars (m).items ()):
                    if isinstance (v, type) and v is not oldP and oldP in v.__bases__:
                        # own kind of process
                        patch (v, '__bases__', tuple (P if b is oldP else b for b in v.__bases__))
                    elif v is oldP:
                        patch (m, a, P)
                    elif v is oldQ or getattr (v, '__func__', None) is getattr (oldQ, '__func__', 1):
                        patch (m, a, Q)
        patch (multiprocessing, 'Process', P)
        patch (multiprocessing, 'Queue', Q)
        patch (multiprocessing, 'get_context', lambda method=None: multiprocessing)
        return cli (main, argv, stdin=stdin, cwd=cwd)
    finally:
        signal.signal (signal.SIGINT, sig)
        for m, a, v in reversed (saved):
            setattr (m, a, v)
