""" C07: parallel corpus import equals sequential import """
import itertools, json, multiprocessing, os, queue, time
from .. import kit, ref, core, sched, imp
from ..core import Suite, Violation, need, same, words

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of the real import command: all interleavings of main, worker and status processes and their queue feeder threads, with the real code of every process as transition oracle; final states compared with sequential statistics'
RULE = 'a case is a configuration (workers, input lines, pipe size mode); all reachable global states are visited; states are distinct (operation results of every process, queue contents, buffers)'
ASSUMPTIONS = ['processes communicate only through multiprocessing queues, process start/join and standard input (anything else is reported as not simulated)',
    'the queue model (bounded semaphore, per-process feeder buffer, shared pipe) is validated against multiprocessing.Queue by the queue-conformance suite',
    'timeouts may expire at most once in a row unless nothing else can happen']

def verdict (lines, strict=True):
    def final (ex, s, info):
        need (imp.success (info['outcome']), lambda: f'reports {info["outcome"]} although nothing failed: {core.short (info["stderr"], 300)}')
        outs = imp.checkOutput (info['stdout'], lines, 'combined output')
        # every worker which got an item wrote one result
        busy = 0
        for p in s[0][1:]:
            if any (op[0] == 'get' and res[0] == 'ret' and isinstance (ex.value (res), (str, list)) for op, res in ex.path (p)):
                busy += 1
        need (len (outs) == busy or not strict and len (outs) <= busy, lambda: f'{busy} workers processed items, but {len (outs)} results were written')
        left = ex.left (s)
        need (not left, lambda: f'processes {left} may still run when the command returns')
        ex.finalKinds[len (outs)] += 1
    return final

class Schedules (Suite):
    name = 'schedules'
    bounds = 'workers x items: 1 x 0..3, 2 x 0..3, 3 x 0..1 (thorough: 1 x 0..6, 2 x 0..5, 3 x 0..3, 4 x 0..1), small and larger-than-pipe objects, all interleavings of all processes and queue feeders'
    caseLimit = 3000
    def cases (self, tier):
        if tier == 'quick':
            conf = [(2, 3), (3, 1), (2, 2), (2, 1), (1, 3), (1, 2), (3, 0), (2, 0), (1, 1), (1, 0)]
        else:
            conf = [(3, 3), (2, 5), (4, 1), (2, 4), (3, 2), (1, 6), (1, 5), (4, 0), (2, 3), (3, 1), (1, 4), (2, 2), (2, 1), (1, 3), (1, 2), (3, 0), (2, 0), (1, 1), (1, 0)]
        for big in (False, True):
            for j, n in conf:
                yield (j, n, big)

    def check (self, case, rec):
        j, n, big = case
        lines = imp.LINES[:n] if n <= len (imp.LINES) else imp.LINES
        ex = imp.explore (['-j', str (j), imp.LAYOUT, 'lines'], lines, rec, verdict (lines), big=big)
        if ex:
            rec.outcome ((case, sorted (ex.finalKinds.items ())))

class Same (Suite):
    """ identical and special items, other filters """
    name = 'schedules-items'
    bounds = '2 workers; identical lines, empty lines, last line without line feed, JSON strings, items with line separators other than line feed, items whose first key could depend on the previous one, items without any known character, items (tar files) of several texts and of none'
    caseLimit = 600
    def cases (self, tier):
        L = imp.LINES
        yield ('lines', [L[0], L[0]])
        yield ('lines', [L[3], L[5]])
        yield ('json', [json.dumps (L[0]) + '\n', json.dumps (L[4]) + '\n'])
        # depends on what has been typed before, which is nothing in every item
        yield ('json', [json.dumps (x) + '\n' for x in ('\u0628', ' \u0628', ' ')])
        yield ('json', [json.dumps (x) + '\n' for x in ('\u0628!', ' \u062c', ' .')])
        # nothing but unknown characters, which are counted as well
        yield ('json', [json.dumps (x) + '\n' for x in ('xyz', L[0])])
        yield ('json', [json.dumps (x) + '\n' for x in ('xy', )])
        # only line feeds separate items
        sep = '\u0628\u2028 \u0628\x0c \u0645\x85 \u0628\x1c \u0643\x0b \u0628\u2029 \u0645\n'
        yield ('lines', [sep, L[0]])
        yield ('json', [json.dumps (x, ensure_ascii=False) + '\n' for x in (sep, L[0])])
        # several texts in one item
        yield ('tar', [[' \u0628', '\u0628', ' ', L[1]], [L[0]]])
        yield ('tar', [['\u0628!', ' \u062c', ' .', 'xyz']])
        # items without any text
        for items in ([[L[0]], []], [[], [L[0]]], [[]], [[], []], [[L[0]], [], [L[2]]]):
            yield ('tar', items)
        if tier != 'quick':
            yield ('tar', [[' \u0628', '\u0628'], [' ', L[1]], [L[0], L[0]]])
            yield ('lines', [L[0], L[0], L[0]])
            yield ('json', [json.dumps (L[0]) + '\n', json.dumps ('') + '\n', json.dumps (L[2])])

    def check (self, case, rec):
        filt, lines = case
        if filt == 'tar':
            with core.Scratch () as d:
                paths = []
                for i, texts in enumerate (lines):
                    paths.append (os.path.join (d, f'{i}.tar'))
                    with open (paths[-1], 'wb') as fd:
                        fd.write (imp.tarOf ([x.encode ('utf-8') for x in texts]))
                texts = [x for l in lines for x in l]
                argv = ['-j', '2', imp.LAYOUT, 'file', 'tar', 'text']
                imp.explore (argv, [p + '\n' for p in paths], rec, verdict (texts, all (lines)))
                with imp.Real (argv) as r:
                    r.feed (''.join (p + '\n' for p in paths).encode ('utf-8'))
                    r.eof ()
                    ret = r.wait ()
                    need (ret == 0, lambda: f'exit status {ret}: {r.err ()[-800:]}')
                    imp.checkOutput (r.out (), texts, 'tar files')
                rec.trace ()
            return
        texts = [json.loads (l) for l in lines] if filt == 'json' else lines
        imp.explore (['-j', '2', imp.LAYOUT, filt], lines, rec, verdict (texts))

class RealRuns (Suite):
    name = 'real-runs'
    bounds = 'conformance: the installed command with real processes, 1, 2, 3 and 8 workers, 0..200 items, items of up to 300 kB (larger than a pipe)'
    caseLimit = 400
    def cases (self, tier):
        yield (1, [])
        yield (8, [0, 1, 2])
        yield (2, [4, 5])
        yield (3, [0, 1, 2, 3, 4]*40)
        yield (2, 'big')
        if tier != 'quick':
            for j in (1, 2, 3, 4, 5, 6, 7):
                yield (j, [0, 1, 2, 3, 4]*j)
                yield (j, 'big')
                yield (j, [])

    def check (self, case, rec):
        j, items = case
        if items == 'big':
            lines = [(imp.LINES[k][:-1]*(30000//(k+1))) + '\n' for k in range (5)]
        else:
            lines = [imp.LINES[k] for k in items]
        with imp.Real (['-j', str (j), imp.LAYOUT, 'lines']) as r:
            r.feed (''.join (lines).encode ('utf-8'))
            r.eof ()
            ret = r.wait ()
            need (ret == 0, lambda: f'exit status {ret}: {r.err ()[-800:]}')
            left = r.alive ()
            need (not left, f'processes {left} left behind')
            outs = imp.checkOutput (r.out (), lines, f'{j} workers, {len (lines)} items')
            need (len (outs) <= min (j, len (lines)), lambda: f'{len (outs)} results of {j} workers for {len (lines)} items')
        rec.trace ()
        rec.step (len (lines))

class QueueModel (Suite):
    """ the model of the queue against multiprocessing.Queue, quiescent feeder """
    name = 'queue-conformance'
    bounds = 'all sequences of up to 5 operations (put, get, empty, full, qsize; not waiting) on queues of size 1, 2 and unlimited: model and multiprocessing.Queue agree once the feeder thread is done'
    caseLimit = 300
    def cases (self, tier):
        n = 4 if tier == 'quick' else 5
        for size in (1, 2, 0):
            for first in ('put', 'get', 'empty', 'full', 'qsize'):
                yield (n, size, first)

    def check (self, case, rec):
        n, size, first = case
        for rest in words (('put', 'get', 'empty', 'full', 'qsize'), n-1):
            q = multiprocessing.Queue (size)
            used, pipe, k = 0, [], 0
            for op in (first, ) + rest:
                if op == 'put':
                    want = None if not size or used < size else 'Full'
                    if want is None:
                        used += 1
                        pipe.append (k)
                    try:
                        got = q.put (k, False)
                        # let the feeder finish
                        t = time.time ()
                        while q.empty () and time.time ()-t < 30:
                            pass
                        while q._buffer and time.time ()-t < 30:
                            pass
                        # the last object is written after it left the buffer
                        with q._notempty:
                            pass
                    except queue.Full:
                        got = 'Full'
                    k += 1
                elif op == 'get':
                    want = pipe.pop (0) if pipe else 'Empty'
                    if want != 'Empty':
                        used -= 1
                    try:
                        got = q.get (want != 'Empty', None if want == 'Empty' else 30)
                    except queue.Empty:
                        got = 'Empty'
                elif op == 'empty':
                    want = not pipe
                    got = q.empty ()
                    if got and pipe:
                        t = time.time ()
                        while q.empty () and time.time ()-t < 30:
                            pass
                        got = q.empty ()
                elif op == 'full':
                    want, got = bool (size) and used >= size, q.full ()
                else:
                    want, got = used, q.qsize ()
                if got != want:
                    raise core.HarnessError (f'queue model is wrong: {(first, ) + rest} size {size}: {op} gives {got}, expected {want}')
                rec.step ()
            q.close ()
            q.join_thread ()
            rec.trace ()
            rec.state ((size, first, rest))

SUITES = [Schedules (), Same (), RealRuns (), QueueModel ()]
