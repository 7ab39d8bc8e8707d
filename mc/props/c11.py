""" C11: character mapping """
import io, itertools, json, os, tempfile, unicodedata
from .. import kit, core, seq
from ..core import Suite, Violation, need, same, words
from lulua import text as T, writer as W

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration: every Unicode code point in several contexts and all sequences up to length 4 over the special characters, mapped by the real code directly and inside the import command (the text reaching the writer is recorded), compared with an independent table'
RULE = 'every text within the bounds is mapped once; states are the distinct texts'

# code points written out, so that no normalisation of this file matters
MAP = {
    0xfefb: (0x644, 0x627), 0xfef7: (0x644, 0x627, 0x654), 0xfef9: (0x644, 0x627, 0x655),
    0x2c: (0x60c, ), 0x25: (0x66a, ), 0x3f: (0x61f, ), 0x3b: (0x61b, ), 0xa0: (0x20, ),
    }
for c in (0x622, 0x623, 0x624, 0x625, 0x626):
    MAP[c] = tuple (map (ord, unicodedata.normalize ('NFD', chr (c))))
for i in range (10):
    MAP[0x30+i] = (0x660+i, )
MAP = {chr (k): ''.join (map (chr, v)) for k, v in MAP.items ()}

def mapped (t):
    return ''.join (MAP.get (c, c) for c in t)

def before (t):
    """ what the writer gets """
    out, i = '', 0
    while i < len (t):
        if t[i:i+2] == '\r\n':
            out += '\n'
            i += 2
        else:
            out += MAP.get (t[i], t[i])
            i += 1
    return out

def pipeline (texts):
    """ texts seen by the writer inside the import command """
    # in a file, which works wherever the worker runs
    fd, path = tempfile.mkstemp (prefix='verif-mc-')
    os.set_inheritable (fd, True)
    orig = W.Writer.type
    def type_ (self, f):
        data = f.read ()
        line = (json.dumps (data) + '\n').encode ('ascii')
        while line:
            line = line[os.write (fd, line):]
        return orig (self, io.StringIO (data, newline=''))
    W.Writer.type = type_
    try:
        seq.run (T.write, ['-j', '1', 'null', 'json'], ''.join (json.dumps (t) + '\n' for t in texts).encode ('utf-8'))
        with open (path) as f:
            return [json.loads (l) for l in f]
    finally:
        W.Writer.type = orig
        os.close (fd)
        os.unlink (path)

def direct (texts):
    """ the mapping function alone, if there is one """
    f, table = getattr (T, 'mapChars', None), getattr (T, 'charMap', None)
    if f is None or table is None:
        return
    for t in texts:
        m = f (t, table)
        if m != mapped (t):
            raise Violation (f'mapping {t!r} gives {m!r}, expected {mapped (t)!r}')
        again = f (m, table)
        if again != m:
            raise Violation (f'mapping {t!r} twice gives {again!r} instead of {m!r}')

def check (texts, rec):
    direct (texts)
    got = pipeline (texts)
    want = [before (t) for t in texts]
    if got != want:
        for t, g, w in itertools.zip_longest (texts, got, want):
            if g != w:
                raise Violation (f'import: text {t!r} is typed as {g!r}, expected {w!r}')
    rec.step (2*len (texts))
    rec.trace (len (texts))
    rec.states.update (core.hash64 (t) for t in texts)

class CodePoints (Suite):
    name = 'all-code-points'
    bounds = 'every Unicode code point (surrogates included): mapped directly alone, doubled, between letters and digits, next to CR, LF and combining hamza; inside the import command after a letter (code points below U+3000 and presentation forms, thorough all: in all contexts)'
    def cases (self, tier):
        for i in range (0, 0x110000, 0x400):
            yield (tier, i)

    def check (self, case, rec):
        tier, i = case
        texts = []
        for cp in range (i, i+0x400):
            c = chr (cp)
            texts.append (c + c + '\u0628' + c + '7' + c + '\u0654' + c + '\r\n' + c + '\n' + c + '\r' + c)
        if tier != 'quick' or i < 0x3000 or 0xf800 <= i < 0x10000:
            check (texts, rec)
        else:
            direct (texts)
            rec.step (len (texts))
        check ([''.join ('\u0628' + chr (cp) for cp in range (i, i+0x400))], rec)
        rec.trace (0x400)
        rec.states.update (core.hash64 (t[0]) for t in texts)

class Sequences (Suite):
    name = 'sequences'
    bounds = 'all texts up to length 3 (thorough 4) over the 23 mapped characters, their targets, CR, LF, a letter, a Latin letter and a tab'
    def alphabet (self):
        return sorted (MAP) + sorted (set (''.join (MAP.values ())) - set (MAP)) + ['\r', '\n', '\u0628', 'a', '\t']

    def cases (self, tier):
        a = self.alphabet ()
        n = 2 if tier == 'quick' else 3
        for t in words (a, n-1, n-1):
            yield ''.join (t)

    def check (self, head, rec):
        a = self.alphabet ()
        if len (head) == 1:
            check ([head + ''.join (t) for t in words (a, 2)], rec)
        else:
            check ([head + ''.join (t) for t in words (a, 2)], rec)

class LineEnds (Suite):
    name = 'line-ends'
    bounds = 'all texts up to length 7 (thorough 9) over CR, LF, a mapped and an unmapped character'
    def cases (self, tier):
        n = 7 if tier == 'quick' else 9
        for t in words ('\r\n,\u0628', 2, 2):
            yield (n, ''.join (t))
        yield (1, '')

    def check (self, case, rec):
        n, head = case
        check ([head + ''.join (t) for t in words ('\r\n,\u0628', n-2 if head else 1)], rec)

class Long (Suite):
    name = 'long-texts'
    bounds = 'period (<= 2 of 8 characters) repeated to 10000 (thorough 200000) characters; CR LF and mapped characters around every power of two from 2^10 to 2^20'
    def cases (self, tier):
        n = 10000 if tier == 'quick' else 200000
        for p in words ('\r\n,\u00a0\u0623\ufefbx7', 2, 1):
            yield (n, ''.join (p))
        for k in range (10, 21):
            yield (1 << k, None)

    def check (self, case, rec):
        n, p = case
        if p is None:
            # filled up with characters which are kept
            fill = 'x'*(n-4)
            texts = [fill + 'x'*i + '\r\n,' for i in range (6)] if n <= 1 << 16 else [fill + 'xxx' + '\r\n,']
            direct (texts)
            check (texts, rec)
            return
        check ([p*(n//len (p)), 'x' + p*(n//len (p))], rec)

SUITES = [CodePoints (), Sequences (), LineEnds (), Long ()]
