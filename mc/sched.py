"""
Explicit-state exploration of a program made of several processes which talk
through multiprocessing queues.

Processes share no memory, so the next operation of a process is a function of
the results of its previous operations. That function is obtained from the real
code: an oracle call forks, runs the code from the beginning with simulated
Process/Queue/stdin objects which replay the recorded results, and reports the
first operation without a recorded result. A child process is obtained the same
way: the parent is replayed up to the point where it starts the child, and the
forked copy then becomes that child, so it inherits everything a real fork does
(objects, globals, signal disposition).

The global state (recorded results of every process, queue semaphores, feeder
buffers, pipes, standard input position, interrupt delivered?) is explored
exhaustively. Queues behave like multiprocessing.Queue: put () takes a slot of
a bounded semaphore and appends to a buffer of the calling process, a feeder
thread moves the buffer to the pipe asynchronously, empty () looks at the pipe
only, get () takes from the pipe and releases the slot, a process exits only
after its feeders are done. In `big` mode strings and results are larger than
the pipe, so a feeder is not done until its object was read.
"""
import os, sys, io, pickle, signal, time, queue, threading, multiprocessing, traceback, collections
from .core import Violation, HarnessError, PKG

class Unsupported (HarnessError):
    pass

# ------------------------------------------------------ inside the oracle

class _Ctl:
    """ replay state of the forked process """
    levels = None    # list of (results, child started at the end)
    level = 0
    pos = 0
    fd = None
    out = None
    nqueues = 0
    nprocs = 0
    children = None
    name = 'MainProcess'

C = _Ctl ()

def _report (kind, payload):
    dispo = signal.getsignal (signal.SIGINT)
    if dispo == signal.SIG_IGN:
        d = 'ign'
    elif dispo == signal.SIG_DFL or dispo is None:
        d = 'dfl'
    else:
        d = 'handler'
    data = pickle.dumps ((kind, payload, d))
    while data:
        n = os.write (C.fd, data)
        data = data[n:]
    os._exit (0)

def _op (desc):
    while True:
        if threading.current_thread () is not threading.main_thread ():
            _report ('unsupported', 'operation in a thread')
        results = C.levels[C.level][0]
        if C.pos < len (results):
            kind, val = results[C.pos]
            C.pos += 1
            if kind == 'ret':
                return pickle.loads (val)
            elif kind == 'exc':
                if val == 'Decode':
                    raise UnicodeDecodeError ('utf-8', b'\xff', 0, 1, 'invalid start byte')
                raise {'Empty': queue.Empty, 'Full': queue.Full}[val]
            elif kind == 'int':
                h = signal.getsignal (signal.SIGINT)
                if not callable (h):
                    _report ('unsupported', 'interrupt ignored')
                h (signal.SIGINT, sys._getframe (1))
                # handler returned, operation is restarted
                continue
            raise AssertionError (kind)
        if C.level + 1 < len (C.levels):
            # become the child being started here
            assert desc[0] == 'start', desc
            proc = C.children[desc[1]]
            C.level += 1
            C.pos = 0
            C.name = proc.name
            C.children = {}
            C.nprocs = 0
            _finish (proc.run)
        _report ('op', desc)

def _finish (f):
    """ Run f to its end, report outcome """
    try:
        ret = f ()
        out = ('return', ret if isinstance (ret, (int, str, type (None))) else repr (ret))
    except SystemExit as e:
        out = ('exit', e.code if isinstance (e.code, (int, str, type (None))) else repr (e.code))
    except BaseException as e:
        out = ('raise', ''.join (traceback.format_exception (type (e), e, e.__traceback__)), type (e).__name__)
    try:
        sys.stdout.flush ()
    except Exception:
        pass
    _report ('end', dict (outcome=out, stdout=C.out.getvalue (), stderr=C.err.getvalue ()))

# in place of an input line: bytes which cannot be decoded
UNDECODABLE = ('undecodable', )

class SimQueue:
    def __init__ (self, maxsize=0, **kwargs):
        self.id = C.nqueues
        C.nqueues += 1
        self.maxsize = maxsize if maxsize and maxsize > 0 else 1<<30

    def put (self, obj, block=True, timeout=None):
        try:
            data = pickle.dumps (obj)
        except Exception as e:
            # printed and dropped by the feeder of a real queue
            data = None
        big = not (obj is None or isinstance (obj, (int, float)))
        strings = None
        if isinstance (obj, str):
            strings = (obj, )
        elif isinstance (obj, (list, tuple)) and obj and all (isinstance (x, str) for x in obj):
            strings = tuple (obj)
        _op (('put', self.id, self.maxsize, data, bool (block), timeout, big, strings))

    def put_nowait (self, obj):
        return self.put (obj, False)

    def get (self, block=True, timeout=None):
        return _op (('get', self.id, bool (block), timeout))

    def get_nowait (self):
        return self.get (False)

    def empty (self):
        return _op (('empty', self.id))

    def full (self):
        return _op (('full', self.id, self.maxsize))

    def qsize (self):
        return _op (('qsize', self.id))

    def close (self):
        pass

    def join_thread (self):
        _op (('flush', self.id))

    def cancel_join_thread (self):
        _report ('unsupported', 'cancel_join_thread')

class SimProcess:
    def __init__ (self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs
        self.daemon = bool (daemon)
        self.key = None
        self._n = C.nprocs
        C.nprocs += 1
        self.name = name or f'Process-{C.nprocs}'

    def run (self):
        if self._target:
            self._target (*self._args, **self._kwargs)

    def start (self):
        C.children[self._n] = self
        self.key = self._n
        _op (('start', self._n, self.daemon))

    def join (self, timeout=None):
        _op (('join', self.key, timeout))

    def is_alive (self):
        return _op (('alive', self.key))

    @property
    def exitcode (self):
        return _op (('exitcode', self.key))

    @property
    def pid (self):
        return 1000 + self._n
    ident = pid

    def terminate (self):
        _op (('terminate', self.key))
    kill = terminate

    def close (self):
        pass

class SimStdin:
    """ Text standard input, one operation per line """
    encoding = 'utf-8'
    def __iter__ (self):
        return self
    def __next__ (self):
        l = self.readline ()
        if not l:
            raise StopIteration
        return l
    def readline (self, size=-1):
        return _op (('stdin', ))
    def readlines (self, hint=-1):
        return list (self)
    def read (self, size=-1):
        if size is not None and size >= 0:
            _report ('unsupported', 'sized read from stdin')
        return ''.join (self)
    def fileno (self):
        raise io.UnsupportedOperation ()
    def isatty (self):
        return False
    def close (self):
        pass

class SimCurrent:
    @property
    def name (self):
        return C.name
    daemon = False
    pid = 1

def _unsupported (what):
    def f (*a, **kw):
        _report ('unsupported', what)
    return f

def _patch ():
    import time as timemod
    mp = multiprocessing
    repl = {}
    for name, new in (('Process', SimProcess), ('Queue', SimQueue), ('JoinableQueue', _unsupported ('JoinableQueue')),
            ('SimpleQueue', _unsupported ('SimpleQueue')), ('Pool', _unsupported ('Pool')), ('Pipe', _unsupported ('Pipe')),
            ('Manager', _unsupported ('Manager')), ('Event', _unsupported ('Event')), ('Value', _unsupported ('Value')),
            ('get_context', lambda method=None: mp),
            ('current_process', lambda: SimCurrent ()), ('active_children', lambda: list (C.children.values ()))):
        old = getattr (mp, name)
        repl[name] = (old, new)
    for name, (old, new) in repl.items ():
        setattr (mp, name, new)
    for m in list (sys.modules.values ()):
        fn = getattr (m, '__file__', None)
        if fn and os.path.realpath (fn).startswith (PKG):
            for a, v in list (vars (m).items ()):
                if isinstance (v, type) and mp.process.BaseProcess in v.__mro__ and v is not repl['Process'][0]:
                    # own kind of process
                    v.__bases__ = tuple (SimProcess if b is repl['Process'][0] or b is mp.process.BaseProcess else b for b in v.__bases__)
                    continue
                for old, new in repl.values ():
                    if v is old or (getattr (v, '__func__', None) is not None and getattr (v, '__func__', 0) is getattr (old, '__func__', 1)):
                        setattr (m, a, new)
                        break
    timemod.sleep = lambda s: _op (('sleep', s))

def oracle (main, argv, levels, limit=60):
    """ levels: results per process on the path from the main process """
    r, w = os.pipe ()
    pid = os.fork ()
    if pid == 0:
        try:
            os.close (r)
            signal.setitimer (signal.ITIMER_REAL, 0)
            signal.signal (signal.SIGALRM, lambda *a: _report ('hang', ''.join (traceback.format_stack (a[1])[-5:])))
            signal.alarm (limit)
            C.fd = w
            C.levels = levels
            C.children = {}
            C.out = io.BytesIO ()
            C.err = io.StringIO ()
            sys.argv = ['lulua-write'] + list (argv)
            sys.stdin = SimStdin ()
            sys.stdout = io.TextIOWrapper (C.out, encoding='utf-8')
            sys.stderr = C.err
            signal.signal (signal.SIGINT, signal.default_int_handler)
            _patch ()
            _finish (main)
        except BaseException:
            try:
                _report ('unsupported', traceback.format_exc ())
            finally:
                os._exit (3)
    os.close (w)
    data = b''
    while True:
        x = os.read (r, 1<<20)
        if not x:
            break
        data += x
    os.close (r)
    os.waitpid (pid, 0)
    if not data:
        raise HarnessError ('oracle died')
    res = pickle.loads (data)
    if res[0] == 'unsupported':
        raise Unsupported (res[1])
    return res

# -------------------------------------------------------------- explorer

NONE = pickle.dumps (None)
TRUE, FALSE = pickle.dumps (True), pickle.dumps (False)

# a process in the global state: (key, history id, status); key is the path of
# (parent history id, child number); status: r(unning), f(lushing), d(ead)
class Explorer:
    def __init__ (self, main, argv, lines, big=False, interrupt=False, maxStates=3000000, timeouts=1):
        self.main, self.argv, self.lines = main, argv, list (lines)
        self.big, self.interrupt, self.maxStates, self.timeouts = big, interrupt, maxStates, timeouts
        self.hist = [()]            # id -> (parent id, result) or ()
        self.ids = {}
        self.objs = []              # interned pickles
        self.objId = {}
        self.cache = {}
        self.calls = 0
        self.endInfo = {}
        self.transitions = 0
        self.finals = 0
        self.finalKinds = collections.Counter ()
        # partial order reduction, see ample (); facts learnt about the program
        self.reduce = True
        self.observed = set ()      # queues looked at by empty (), full (), qsize () or a get () which does not wait forever
        self.producers = collections.defaultdict (set)
        self.watched = False        # does anybody look at the state of a process without waiting?

    def extend (self, h, res):
        k = (h, res)
        if k not in self.ids:
            self.ids[k] = len (self.hist)
            self.hist.append (k)
        return self.ids[k]

    def results (self, h):
        out = []
        while h:
            h, r = self.hist[h]
            out.append (r)
        return out[::-1]

    def trailing (self, h):
        """ number of timeouts at the end of the history """
        n = 0
        while h:
            h, r = self.hist[h]
            if r[0] != 'exc' and r != ('ret', 'timeout'):
                break
            n += 1
        return n

    def pending (self, key, h):
        k = (key, h)
        if k not in self.cache:
            self.calls += 1
            levels = []
            for ph, num in key:
                levels.append ((self.decode (self.results (ph)), num))
            levels.append ((self.decode (self.results (h)), None))
            kind, payload, dispo = oracle (self.main, self.argv, levels)
            if kind == 'hang':
                raise Violation (f'a process computes forever without touching a queue: {payload}')
            if kind == 'op' and payload[0] == 'put':
                payload = payload[:3] + (self.intern (payload[3]), ) + payload[4:]
            if kind == 'op':
                self.learn (key, payload)
            self.cache[k] = (kind, payload, dispo)
        return self.cache[k]

    def learn (self, key, op):
        before = (len (self.observed), sum (len (x) > 1 for x in self.producers.values ()), self.watched)
        if op[0] in ('empty', 'full', 'qsize') or (op[0] == 'get' and (not op[2] or op[3] is not None)):
            self.observed.add (op[1])
        elif op[0] == 'put':
            self.producers[op[1]].add (key)
        elif op[0] in ('alive', 'exitcode', 'terminate') or (op[0] == 'join' and op[2] is not None):
            self.watched = True
        if before != (len (self.observed), sum (len (x) > 1 for x in self.producers.values ()), self.watched):
            self.stale = True

    def ample (self, s, succ):
        """ A single transition which is independent of all others, now and
        later, and not visible to the property: exploring it alone is enough. The
        state graph has no cycles. The facts it relies on are learnt while
        exploring, and exploration starts over if they turn out to be wrong. """
        for label, t in succ:
            w = label.split (' ')
            if len (w) < 2:
                continue
            if w[0] == 'feeder':
                q = int (w[3][1:])
                if q not in self.observed and len (self.producers[q]) == 1:
                    return [(label, t)]
            elif w[1] in ('end', 'start') and label[:2] != 'P0':
                return [(label, t)]
            elif w[1] == 'start':
                return [(label, t)]
            elif w[1] == 'read' and not self.interrupt:
                return [(label, t)]
            elif w[1] == 'exit' and not self.watched:
                return [(label, t)]
        return succ

    def intern (self, data):
        if data is None:
            return None
        if data not in self.objId:
            self.objId[data] = len (self.objs)
            self.objs.append (data)
        return self.objId[data]

    def decode (self, results):
        out = []
        for kind, v in results:
            if kind == 'ret':
                if v == 'timeout':
                    v = NONE
                elif isinstance (v, int):
                    v = self.objs[v]
            out.append ((kind, v))
        return out

    # state: (procs, queues, stdinPos, handed, flags)
    # procs: tuple of (key, hist, status)
    # queues: tuple of (id, used, pipe, buffers); pipe: tuple of (obj, owner or -1); buffers: tuple of (proc, ((obj, big), ...))
    def initial (self):
        return ((((), 0, 'r'), ), (), 0, (), ())

    def successors (self, s, force=False):
        """ yields (label, state). force: allow any number of timeouts """
        procs, queues, pos, handed, flags = s
        qd = {q[0]: q for q in queues}

        def setProc (ps, i, h=None, st=None):
            p = ps[i]
            p = (p[0], p[1] if h is None else h, p[2] if st is None else st)
            return ps[:i] + (p, ) + ps[i+1:]
        def setQueue (q):
            d = dict (qd)
            d[q[0]] = q
            return tuple (sorted (d.values ()))

        # interrupt of the process group, while the main process reads its input
        if self.interrupt and not flags and procs[0][2] == 'r':
            kind, op, dispo = self.pending (procs[0][0], procs[0][1])
            if kind == 'op' and self.reading (procs[0], op):
                np = procs
                nq = queues
                for i, p in enumerate (procs):
                    if p[2] != 'r':
                        if p[2] == 'f':
                            # the flush at exit is interrupted: not modelled
                            pass
                        continue
                    k2, op2, d2 = self.pending (p[0], p[1])
                    if k2 == 'end' or d2 == 'ign':
                        continue
                    if d2 == 'dfl':
                        np = setProc (np, i, st='d')
                        continue
                    np = setProc (np, i, h=self.extend (p[1], ('int', None)))
                yield ('interrupt', (np, nq, pos, handed, ('i', len (handed), pos)))

        for i, p in enumerate (procs):
            key, h, st = p
            if st == 'd':
                continue
            if st == 'f':
                # exits as soon as its feeders are done
                if not any (b[0] == i for q in queues for b in q[3]) and not any (o[1] == i for q in queues for o in q[2]):
                    yield (f'P{i} exit', (setProc (procs, i, st='d'), queues, pos, handed, flags))
                continue
            kind, op, dispo = self.pending (key, h)
            if kind == 'end':
                yield (f'P{i} end', (setProc (procs, i, st='f'), queues, pos, handed, flags))
                continue
            o = op[0]
            def ret (v, q=None, ps=None, pos_=None, handed_=None):
                return (setProc (ps if ps is not None else procs, i, h=self.extend (h, ('ret', v))),
                        setQueue (q) if q is not None else queues,
                        pos if pos_ is None else pos_, handed if handed_ is None else handed_, flags)
            def exc (name, pos_=None):
                return (setProc (procs, i, h=self.extend (h, ('exc', name))), queues, pos if pos_ is None else pos_, handed, flags)
            mayTimeout = force or self.trailing (h) < self.timeouts
            if o == 'put':
                _, qi, maxsize, obj, block, timeout, big, strings = op
                q = qd.get (qi, (qi, 0, (), ()))
                if q[1] < maxsize:
                    hd = handed
                    if i == 0 and strings:
                        hd = handed + tuple (strings)
                    if obj is None:
                        # cannot be pickled: dropped
                        yield (f'P{i} put unpicklable', ret (NONE, handed_=hd))
                    else:
                        bufs = dict (q[3])
                        bufs[i] = bufs.get (i, ()) + ((obj, bool (big and self.big)), )
                        yield (f'P{i} put q{qi} {self.show (obj)}', ret (NONE, q=(qi, q[1]+1, q[2], tuple (sorted (bufs.items ()))), handed_=hd))
                elif not block or (timeout is not None and mayTimeout):
                    yield (f'P{i} put q{qi} full', exc ('Full'))
            elif o == 'get':
                _, qi, block, timeout = op
                q = qd.get (qi, (qi, 0, (), ()))
                if q[2]:
                    obj = q[2][0][0]
                    yield (f'P{i} get q{qi} -> {self.show (obj)}', ret (obj, q=(qi, q[1]-1, q[2][1:], q[3])))
                elif not block or (timeout is not None and mayTimeout):
                    yield (f'P{i} get q{qi} empty', exc ('Empty'))
            elif o == 'empty':
                q = qd.get (op[1])
                yield (f'P{i} empty q{op[1]}', ret (FALSE if q and q[2] else TRUE))
            elif o == 'full':
                q = qd.get (op[1])
                yield (f'P{i} full', ret (TRUE if q and q[1] >= op[2] else FALSE))
            elif o == 'qsize':
                q = qd.get (op[1])
                yield (f'P{i} qsize', ret (pickle.dumps (q[1] if q else 0)))
            elif o == 'flush':
                q = qd.get (op[1])
                if not q or (not any (b[0] == i for b in q[3]) and not any (x[1] == i for x in q[2])):
                    yield (f'P{i} join_thread', ret (NONE))
            elif o == 'start':
                child = (key + ((h, op[1]), ), 0, 'r')
                yield (f'P{i} start P{len (procs)}', ret (NONE, ps=procs + (child, )))
            elif o in ('join', 'alive', 'exitcode', 'terminate'):
                j = self.findChild (procs, key, op[1])
                dead = procs[j][2] == 'd'
                if o == 'join':
                    if dead:
                        yield (f'P{i} join P{j}', ret (NONE))
                    elif op[2] is not None and mayTimeout:
                        yield (f'P{i} join P{j} timeout', ret ('timeout'))
                elif o == 'alive':
                    yield (f'P{i} alive P{j}', ret (FALSE if dead else TRUE))
                elif o == 'exitcode':
                    code = None
                    if dead:
                        k2, info, _ = self.pending (*procs[j][:2])
                        code = -15 if k2 != 'end' else (1 if info['outcome'][0] == 'raise' else 0)
                    yield (f'P{i} exitcode P{j}', ret (pickle.dumps (code)))
                else:
                    np = setProc (procs, i, h=self.extend (h, ('ret', NONE)))
                    if not dead:
                        np = setProc (np, j, st='d')
                        nq = tuple ((a, b, c, tuple (x for x in d if x[0] != j)) for a, b, c, d in queues)
                    else:
                        nq = queues
                    yield (f'P{i} terminate P{j}', (np, nq, pos, handed, flags))
            elif o == 'stdin':
                if pos < len (self.lines) and self.lines[pos] == UNDECODABLE:
                    yield (f'P{i} read fails', exc ('Decode', pos+1))
                elif pos < len (self.lines):
                    yield (f'P{i} read {self.lines[pos]!r}', ret (pickle.dumps (self.lines[pos]), pos_=pos+1))
                else:
                    yield (f'P{i} read EOF', ret (pickle.dumps ('')))
            elif o == 'sleep':
                if mayTimeout:
                    yield (f'P{i} sleep', ret ('timeout'))
            else:
                raise Unsupported (o)

        # feeder threads
        for q in queues:
            if any (o[1] != -1 for o in q[2]):
                # somebody is still writing to the pipe
                continue
            for b in q[3]:
                i, objs = b
                obj, big = objs[0]
                bufs = tuple ((x, objs[1:] if x == i else y) for x, y in q[3])
                bufs = tuple (x for x in bufs if x[1])
                yield (f'feeder of P{i} q{q[0]} {self.show (obj)}', (procs, setQueue ((q[0], q[1], q[2] + ((obj, i if big else -1), ), bufs)), pos, handed, flags))

    def path (self, p):
        """ operations and results of a process """
        h, hs = p[1], []
        while h:
            hs.append (h)
            h = self.hist[h][0]
        prev = 0
        for h in reversed (hs):
            yield self.pending (p[0], prev)[1], self.hist[h][1]
            prev = h

    def value (self, res):
        """ what an operation returned """
        return pickle.loads (self.decode ([res])[0][1])

    def left (self, s):
        """ children which may still run when the main process is done """
        if self.watched or not self.reduce:
            return [i for i, p in enumerate (s[0]) if i and p[2] != 'd']
        joined, started = set (), set ()
        for op, res in self.path (s[0][0]):
            if op[0] == 'start' and res[0] == 'ret':
                started.add (op[1])
            if op[0] == 'join' and res == ('ret', NONE):
                joined.add (op[1])
        return sorted (started-joined)

    def reading (self, p, op):
        """ main process is in its input loop """
        if op[0] == 'stdin':
            return True
        if op[0] == 'put' and op[7]:
            return True
        if op[0] == 'empty' and p[1]:
            # directly after handing out an item
            ph = self.hist[p[1]][0]
            k, o, d = self.cache[(p[0], ph)]
            return k == 'op' and o[0] == 'put' and bool (o[7])
        return False

    def findChild (self, procs, key, num):
        for j, p in enumerate (procs):
            if len (p[0]) == len (key)+1 and p[0][:-1] == key and p[0][-1][1] == num:
                return j
        raise HarnessError (f'no child {num}')

    def show (self, obj):
        o = pickle.loads (self.objs[obj])
        return repr (o) if o is None or isinstance (o, (int, str, Exception)) else f'<{type (o).__name__} {obj}>'

    def trace (self, parent, s):
        out = []
        while s in parent and parent[s] is not None:
            ps, label = parent[s]
            out.append (label)
            s = ps
        return out[::-1]

    def explore (self, final, rec=None):
        """ final (state, end info of main) is called for every terminal state
        of the main process """
        while True:
            self.stale = False
            self.finals = self.transitions = 0
            self.finalKinds.clear ()
            self._explore (final)
            if not (self.stale and self.reduce):
                return self

    def _explore (self, final):
        init = self.initial ()
        parent = {init: None}
        stack = [init]
        while stack:
            s = stack.pop ()
            kind, info, dispo = self.pending (*s[0][0][:2]) if s[0][0][2] == 'r' else ('end', None, None)
            if s[0][0][2] == 'f':
                # command returned
                _, info, _ = self.pending (*s[0][0][:2])
                try:
                    final (self, s, info)
                except Violation as e:
                    raise Violation (f'{e}\nschedule: ' + '; '.join (self.trace (parent, s)), e.key)
                self.finals += 1
                continue
            any_ = False
            succ = list (self.successors (s))
            if self.stale and self.reduce:
                return
            if self.reduce:
                succ = self.ample (s, succ)
            for label, t in succ:
                any_ = True
                self.transitions += 1
                if t not in parent:
                    parent[t] = (s, label)
                    stack.append (t)
            if not any_:
                # nothing but waiting with a timeout? Give that a chance
                cur, n = s, 0
                while n < 60:
                    nxt = list (self.successors (cur, force=True))
                    nxt = [x for x in nxt]
                    if not nxt:
                        break
                    prev = cur
                    cur = nxt[n % len (nxt)][1]
                    n += 1
                    free = list (self.successors (cur))
                    if free:
                        if cur not in parent:
                            parent[cur] = (s, 'timeouts')
                            stack.append (cur)
                        break
                else:
                    nxt = []
                if not nxt:
                    what = '; '.join (f'P{i} {p[2] if p[2] != "r" else self.pending (p[0], p[1])[1][:2]}' for i, p in enumerate (s[0]))
                    raise Violation (f'the command never terminates: {what}\nschedule: ' + '; '.join (self.trace (parent, s)))
            if len (parent) > self.maxStates:
                raise HarnessError (f'more than {self.maxStates} states')
        self.states = len (parent)
