DEMO_RUN = r'''
import io, os, pickle, signal, subprocess, sys, tempfile, time
RUN = 'import sys; from lulua.text import write; sys.exit (write ())'
def start (*args):
    env = dict (os.environ)
    return subprocess.Popen ([sys.executable, '-W', 'ignore', '-c', RUN] + list (args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=lambda: signal.signal (signal.SIGINT, signal.default_int_handler))
def finish (p, data=b'', limit=60):
    try:
        return p.communicate (data, timeout=limit)[0]
    except subprocess.TimeoutExpired:
        os.killpg (p.pid, signal.SIGKILL)
        p.communicate ()
        raise SystemExit ('does not terminate')
def combos (out):
    fd, n = io.BytesIO (out), 0
    while fd.tell () < len (out):
        n += sum (pickle.load (fd)['simple'].combinations.values ())
    return n
'''
Seed ('c07-status', 'C07', [('lulua/text.py', "    # exit workers\n", "    # input is complete, no need to show the progress any longer\n    statusq.put (None)\n    statusp.join ()\n\n    # exit workers\n"),
    ('lulua/text.py', "    assert outq.empty ()\n\n    statusq.put (None)\n    statusp.join ()\n", "    assert outq.empty ()\n")],
DEMO_RUN + r'''
# one worker, slow items: three of them are still waiting when the input ends
line = ('\u0627\u0644\u0643\u062a\u0627\u0628 '*40000 + '\n').encode ()
out = finish (start ('-j', '1', 'ar-lulua', 'lines'), line*6)
assert combos (out) > 0
''', 'more items waiting in the queue at the end of the input than the status queue has slots', 'workers block forever on the status queue, the import never terminates')

Seed ('c07-collect', 'C07', [('lulua/text.py', "        inq.put (None)\n        item = outq.get ()\n", "        inq.put (None)\n    for w in workers:\n        try:\n            item = outq.get (timeout=2)\n        except queue.Empty:\n            # had nothing to do\n            continue\n"),
    ('lulua/text.py', "        if itemsProcessed > 0:\n            outq.put (combined)\n        else:\n            outq.put (None)\n", "        if itemsProcessed > 0:\n            outq.put (combined)\n"),
    ('lulua/text.py', "    assert outq.empty ()\n", "")],
DEMO_RUN + r'''
line = ('\u0627\u0644\u0643\u062a\u0627\u0628 '*150000 + '\n').encode ()
out = finish (start ('-j', '2', 'ar-lulua', 'lines'), line*2, 200)
n = combos (out)
assert n == 2*(150000*7+1), n
''', 'a worker needs longer than the timeout for its last item', 'results of slow workers are lost')

Seed ('c08-peek', 'C08', [('lulua/text.py', "            if not outq.empty ():\n                break\n", "            if not outq.empty ():\n                logging.error (outq.get ())\n                break\n")],
DEMO_RUN + r'''
p = start ('-j', '1', 'ar-lulua', 'json')
p.stdin.write (b'{"x\n')
p.stdin.flush ()
time.sleep (8)
finish (p, b'"a"\n'*20, 30)
assert p.returncode != 0
''', 'a worker fails while input is still being read', 'the error is swallowed and the import waits for a second result of the failed worker forever')

Seed ('c08-resume', 'C08', [('lulua/text.py', "    try:\n        for l in sys.stdin:\n            inq.put (l)\n\n            # something is wrong\n            if not outq.empty ():\n                break\n    except KeyboardInterrupt:\n        pass\n",
"    lines = []\n    try:\n        for l in sys.stdin:\n            lines.append (l)\n            inq.put (l)\n            lines.pop ()\n\n            # something is wrong\n            if not outq.empty ():\n                break\n    except KeyboardInterrupt:\n        # finish what we started\n        for l in lines:\n            inq.put (l)\n")],
DEMO_RUN + r'''
# the only worker is busy, the queue is full, the interrupt hits while putting an item
slow = ('\u0627\u0644\u0643\u062a\u0627\u0628 '*200000 + '\n').encode ()
p = start ('-j', '1', 'ar-lulua', 'lines')
p.stdin.write (slow)
p.stdin.write (b'\xd8\xa7\n'*10)
p.stdin.flush ()
time.sleep (5)
os.killpg (p.pid, signal.SIGINT)
out = finish (p, b'', 120)
# first item and the two the queue can hold
n = combos (out)
assert n == 200000*7+1 + 2*2, n
''', 'an interrupt while the queue is full', 'an item which was not handed out is processed after the interrupt')
