""" C08: failures and interrupts of the corpus import """
import io, itertools, json, os, shutil, signal, subprocess, tarfile, tempfile, time, zipfile, select
import brotli
from .. import kit, ref, core, sched, imp
from ..core import Suite, Violation, need, same, words

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of the real import command with injected failures (every pattern of failing items) and interrupts (at every step of the input loop): all interleavings of all processes and queue feeders, real code as transition oracle'
RULE = 'a case is a configuration (workers, pattern of good and failing items, interrupts on/off, pipe size mode); all reachable global states are visited and every terminal state judged; states are distinct'
ASSUMPTIONS = ['same process and queue model as C07', 'the interrupt reaches all processes at the same time, while the main process is in its input loop; processes which do not ignore it see it at their next operation']

BAD = '{"unfinished\n'
def line (k):
    return json.dumps (imp.LINES[k]) + '\n'

REPORTED = ('JSONDecodeError', 'Unterminated', 'No such file')
def judge (badMark, reported=REPORTED):
    """ handed out so far decides what is expected """
    def final (ex, s, info):
        procs, queues, pos, handed, flags = s
        out = info['outcome']
        if any (badMark in x for x in handed):
            need (not imp.success (out), lambda: f'item failed, but the command reports success ({out})')
            text = ' '.join (map (str, out)) + info['stderr']
            need (any (x in text for x in reported), lambda: f'the error of the failed item is not reported, but {core.short (text, 800)}')
            ex.finalKinds['error'] += 1
        else:
            if not flags:
                need (len (handed) == len (ex.lines), lambda: f'only {len (handed)} of {len (ex.lines)} items handed out')
                need (imp.success (out), lambda: f'reports {out} although nothing failed')
            else:
                need (out[0] in ('return', 'exit', 'raise'), 'no outcome')
                need (len (handed) == flags[1], lambda: f'{len (handed)} items processed, but only {flags[1]} were handed out before the interrupt')
                need (pos == flags[2], lambda: f'{pos-flags[2]} more items read after the interrupt')
                if out[0] == 'raise' and out[2] != 'KeyboardInterrupt':
                    raise Violation (f'interrupt ends with {core.short (out[1], 800)}')
            imp.checkOutput (info['stdout'], [json.loads (x) for x in handed], f'output for {len (handed)} items handed out' + (' before the interrupt' if flags else ''))
            ex.finalKinds['interrupted' if flags else 'complete'] += 1
        left = ex.left (s)
        need (not left, lambda: f'processes {left} may still run when the command returns')
    return final

class Failures (Suite):
    name = 'failing-items'
    bounds = 'all patterns of good and failing items: 1 worker x 1..4, 2 workers x 1..3 (thorough: 1 x 1..6, 2 x 1..4, 3 x 1..2), small and larger-than-pipe objects for up to 2 items; all interleavings'
    caseLimit = 3000
    def cases (self, tier):
        sizes = [(2, 3), (3, 1), (2, 2), (2, 1), (1, 4), (1, 3), (1, 2), (1, 1)] if tier == 'quick' else [(3, 2), (2, 4), (1, 6), (1, 5), (2, 3), (3, 1), (2, 2), (2, 1), (1, 4), (1, 3), (1, 2), (1, 1)]
        for j, n in sizes:
            for bad in itertools.product ((True, False), repeat=n):
                if any (bad):
                    for big in (False, True) if n <= 2 or tier != 'quick' else (False, ):
                        yield (j, bad, big)

    def check (self, case, rec):
        j, bad, big = case
        lines = [BAD if b else line (i % 5) for i, b in enumerate (bad)]
        ex = imp.explore (['-j', str (j), imp.LAYOUT, 'json'], lines, rec, judge ('unfinished'), big=big)
        if ex:
            rec.outcome ((case, sorted (ex.finalKinds.items ())))

def zipOf (files):
    b = io.BytesIO ()
    with zipfile.ZipFile (b, 'w') as z:
        for k, v in files.items ():
            z.writestr (k, v)
    return b.getvalue ()

# name: filters, contents of a good item, contents of a bad item (None: the
# item itself, see below), one of these is part of the report
GOOD = imp.LINES[0].encode ('utf-8')
# which error it is depends on the first operation that notices
ANY = ('Error', 'Exception')
KINDS = {
    'not utf-8': (('file', 'text'), GOOD, b'abc\xff\xfe', ('UnicodeDecodeError', "can't decode")),
    'not a tar file': (('file', 'tar', 'text'), imp.tarOf ([GOOD]), b'x'*1024, ANY),
    'not brotli': (('file', 'brotli', 'text'), brotli.compress (GOOD), b'\xff'*100, ('brotli', 'BrotliDecoder')),
    'truncated brotli': (('file', 'brotli', 'text'), brotli.compress (GOOD), brotli.compress (GOOD*100)[:-5], ANY),
    'no epub': (('epub', ), None, b'no zip file', ('EpubException', 'Bad Zip', 'zip')),
    # its error cannot be pickled
    'empty container': (('epub', ), None, zipOf ({'META-INF/container.xml': b''}), ('XMLSyntaxError', 'Document is empty')),
    'no container': (('epub', ), None, zipOf ({'x': b''}), ('KeyError', 'no item named', 'container')),
    'no text': (('json', ), json.dumps (imp.LINES[0]), '5', ANY),
    'nothing': (('json', ), json.dumps (imp.LINES[0]), 'null', ANY),
    'nested': (('json', ), json.dumps (imp.LINES[0]), '['*20000, ('RecursionError', 'recursion')),
    'directory': (('file', 'text'), GOOD, 'dir', ('IsADirectoryError', 'Is a directory')),
    'text in place of a file': (('text', ), None, 'abc', ANY),
    }
class Kinds (Suite):
    """ the kind of error does not matter """
    name = 'kinds-of-errors'
    bounds = f'failing items with different errors ({", ".join (KINDS)}), first, last, followed by other items, 1 and 2 workers: all interleavings, plus one real run'
    caseLimit = 600
    def cases (self, tier):
        for k in KINDS:
            for j, pattern in [(1, 'b'), (1, 'gb'), (1, 'bgg'), (2, 'bb'), (2, 'gb')] if tier == 'quick' else [(2, 'bgg'), (2, 'ggb'), (1, 'b'), (1, 'gb'), (1, 'bgg'), (1, 'bbbbb'), (2, 'bb'), (2, 'gb'), (3, 'b')]:
                if 'g' in pattern and KINDS[k][1] is None:
                    continue
                yield (k, j, pattern)
            yield (k, 2, 'real')

    def check (self, case, rec):
        kind, j, pattern = case
        filters, good, bad, reported = KINDS[kind]
        d = os.path.join (tempfile.gettempdir (), f'verif-mc-kinds-{os.getpid ()}')
        os.makedirs (os.path.join (d, 'unfinished-dir'))
        try:
            def item (what, mark, i):
                if isinstance (what, bytes):
                    with open (os.path.join (d, f'{mark}{i}'), 'wb') as fd:
                        fd.write (what)
                    return os.path.join (d, f'{mark}{i}') + '\n'
                if what == 'dir':
                    return os.path.join (d, 'unfinished-dir') + '\n'
                return what + '\n'
            mark = 'unfinished' if isinstance (bad, bytes) or bad == 'dir' else bad
            lines = [item (bad, 'unfinished', i) if x == 'b' else item (good, 'good', i) for i, x in enumerate ('b' if pattern == 'real' else pattern)]
            if pattern == 'real':
                rec.trace ()
                with imp.Real (['-j', str (j), imp.LAYOUT, *filters]) as r:
                    r.feed (''.join (lines*10).encode ('utf-8'))
                    r.eof ()
                    ret = r.wait ()
                    need (ret != 0, f'{kind}: reported as success')
                    need (any (x in r.err () for x in reported), lambda: f'{kind}: error not reported: {r.err ()[-500:]}')
                    need (not r.alive (), 'processes left behind')
                return
            ex = imp.explore (['-j', str (j), imp.LAYOUT, *filters], lines, rec, judge (mark, reported))
            if ex:
                rec.outcome ((case, sorted (ex.finalKinds.items ())))
        finally:
            shutil.rmtree (d, ignore_errors=True)

class Interrupts (Suite):
    name = 'interrupts'
    bounds = 'an interrupt at every step of the input loop: 1 worker x 0..3 items, 2 workers x 0..2 (thorough: 1 x 0..5, 2 x 0..4, 3 x 0..1), small and larger-than-pipe objects; patterns with a failing item for up to 2 items; all interleavings'
    caseLimit = 3000
    def cases (self, tier):
        for j, n in [(2, 2), (2, 1), (1, 3), (1, 2), (2, 0), (1, 1), (1, 0)] if tier == 'quick' else [(2, 4), (3, 1), (1, 5), (2, 3), (1, 4), (2, 2), (3, 0), (2, 1), (1, 3), (1, 2), (2, 0), (1, 1), (1, 0)]:
            for big in (False, True):
                yield (j, (False, )*n, big)
            if 1 <= n <= 2:
                for k in range (n):
                    yield (j, tuple (i == k for i in range (n)), False)

    def check (self, case, rec):
        j, bad, big = case
        lines = [BAD if b else line (i) for i, b in enumerate (bad)]
        ex = imp.explore (['-j', str (j), imp.LAYOUT, 'json'], lines, rec, judge ('unfinished'), big=big, interrupt=True)
        if ex:
            rec.outcome ((case, sorted (ex.finalKinds.items ())))

class Undecodable (Suite):
    """ the input itself is invalid """
    name = 'undecodable-input'
    bounds = 'input which cannot be decoded at every position of up to 3 (thorough 4) items, 1 and 2 workers, small and larger-than-pipe objects: all interleavings; real runs with small and large items before and after'
    caseLimit = 3000
    def cases (self, tier):
        for j, n in [(2, 2), (1, 3), (1, 2), (2, 1), (1, 1), (1, 0), (2, 0)] if tier == 'quick' else [(2, 4), (2, 3), (1, 4), (2, 2), (1, 3), (1, 2), (2, 1), (1, 1), (1, 0), (2, 0)]:
            for at in range (n+1):
                for big in (False, True):
                    yield (j, n, at, big)
        for j in (1, 2, 3):
            for size in (1, 70000):
                yield (j, 'real', size, None)

    def check (self, case, rec):
        j, n, at, big = case
        known = ('UnicodeDecodeError', "can't decode")
        if n == 'real':
            row = ('\u0628 '*at + '\n').encode ('utf-8')
            with imp.Real (['-j', str (j), imp.LAYOUT, 'lines'], env=dict (PYTHONIOENCODING='utf-8:strict')) as r:
                r.feed (row*6*j + b'abc\xff\n' + row*3)
                r.eof ()
                ret = r.wait ()
                need (ret != 0, 'invalid input reported as success')
                need (any (x in r.err () for x in known), lambda: f'error not reported: {r.err ()[-500:]}')
                need (not r.alive (), 'processes left behind')
            rec.trace ()
            return
        lines = [line (i) for i in range (n)]
        lines.insert (at, sched.UNDECODABLE)
        def final (ex, s, info):
            out = info['outcome']
            need (not imp.success (out), lambda: f'input is invalid, but the command reports success ({out})')
            text = ' '.join (map (str, out)) + info['stderr']
            need (any (x in text for x in known), lambda: f'invalid input is not reported, but {core.short (text, 800)}')
            left = ex.left (s)
            need (not left, lambda: f'processes {left} may still run (and keep the command from exiting) when the command returns')
        imp.explore (['-j', str (j), imp.LAYOUT, 'json'], lines, rec, final, big=big)

class RealRuns (Suite):
    name = 'real-runs'
    bounds = 'conformance: real processes; failing items first, last, all, more than the queue holds, followed by endless input; interrupt of the process group while input is pending'
    caseLimit = 400
    def cases (self, tier):
        for j in (1, 2) if tier == 'quick' else (1, 2, 3, 4, 8):
            yield ('fail', j, [True] + [False]*30)
            yield ('fail', j, [True]*30)
            yield ('fail', j, [False, False, True])
            yield ('int', j, 3)
            yield ('int', j, 0)
        yield ('nofile', 2, 2)
        yield ('endless', 1, 0)
        yield ('endless', 2, 3)

    def check (self, case, rec):
        kind, j, what = case
        rec.trace ()
        if kind == 'nofile':
            with imp.Real (['-j', str (j), imp.LAYOUT, 'file', 'text']) as r:
                r.feed (b'/nonexistent/file\n'*what)
                r.eof ()
                ret = r.wait ()
                need (ret != 0, 'missing file reported as success')
                need ('No such file' in r.err (), lambda: f'error not reported: {r.err ()[-500:]}')
                need (not r.alive (), 'processes left behind')
            return
        with imp.Real (['-j', str (j), imp.LAYOUT, 'json']) as r:
            if kind == 'endless':
                # more items keep coming until it gives up
                for i in range (what):
                    r.feed (line (i).encode ('utf-8'))
                r.feed (BAD.encode ('utf-8'))
                t = time.time ()
                while r.p.poll () is None and time.time ()-t < 120:
                    if select.select ([], [r.p.stdin], [], 0.1)[1]:
                        r.feed (line (0).encode ('utf-8'))
                    time.sleep (0.002)
                need (r.p.poll () is not None, 'does not return after an error as long as there is input')
                ret = r.wait ()
                need (ret != 0, 'failing item reported as success')
                need ('Unterminated' in r.err () or 'JSONDecodeError' in r.err (), lambda: f'error not reported: {r.err ()[-500:]}')
                return
            if kind == 'fail':
                for i, b in enumerate (what):
                    r.feed ((BAD if b else line (i % 5)).encode ('utf-8'))
                r.eof ()
                ret = r.wait ()
                need (ret != 0, 'failing item reported as success')
                need ('Unterminated' in r.err () or 'JSONDecodeError' in r.err (), lambda: f'error not reported: {r.err ()[-500:]}')
                need (not r.alive (), 'processes left behind')
                return
            lines = [imp.LINES[i % 5] for i in range (what)]
            for l in lines:
                r.feed ((json.dumps (l) + '\n').encode ('utf-8'))
            # the progress bar tells when everything has been processed
            t = time.time ()
            sure = False
            while time.time ()-t < 30 and not sure:
                sure = f'{what}item' in r.err ()
                time.sleep (0.1)
            time.sleep (0.5)
            os.killpg (r.p.pid, signal.SIGINT)
            if what == 0:
                # may have been too early, nothing has been read yet
                for i in range (5):
                    try:
                        r.p.wait (20)
                        break
                    except subprocess.TimeoutExpired:
                        os.killpg (r.p.pid, signal.SIGINT)
            ret = r.wait ()
            if not sure:
                rec.extra['no progress shown'] += 1
                return
            need (not r.alive (), 'processes left behind')
            imp.checkOutput (r.out (), lines, f'{j} workers, interrupted after {what} items')

SUITES = [Failures (), Kinds (), Interrupts (), Undecodable (), RealRuns ()]
