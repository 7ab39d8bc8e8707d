""" Glue between the reference models and the classes in /repo """
import os, io, collections, functools, pickle
import yaml
from . import ref, core
from lulua import layout as L, keyboard as K, writer as W, stats as S

DATA = os.path.join (core.REPO, 'lulua', 'data')

def dataFile (kind, name):
    with open (os.path.join (DATA, kind, name + '.yaml'), 'rb') as fd:
        return yaml.safe_load (fd)

def layoutNames (null=False):
    return sorted (x[:-5] for x in os.listdir (os.path.join (DATA, 'layouts'))
            if x.endswith ('.yaml') and (null or x != 'null.yaml'))

@functools.lru_cache (None)
def keyboard (name='ibmpc105'):
    return K.defaultKeyboards[name]

@functools.lru_cache (None)
def shipped (name):
    """ (real layout, reference layout) """
    real = L.GenericLayout.deserialize (dataFile ('layouts', name)).specialize (keyboard ())
    return real, ref.Layout.fromData (dataFile ('layouts', name))

def build (layers, name='test', kbd=None):
    """ layers: [(modifiers, {button: text})] """
    data = dict (name=name, layout=[dict (modifier=[list (m) for m in mods], layer=dict (lay)) for mods, lay in layers])
    return L.GenericLayout.deserialize (data).specialize (kbd or keyboard ()), ref.Layout (layers)

def combName (c):
    """ real combination -> reference combination """
    btns = [b.name for b in c.buttons]
    assert len (btns) == 1, btns
    return frozenset (b.name for b in c.modifier), btns[0]

def combReal (c, kbd=None):
    kbd = kbd or keyboard ()
    return L.ButtonCombination (frozenset (kbd[x] for x in c[0]), frozenset ([kbd[c[1]]]))

def eventName (match, e):
    if isinstance (e, W.SkipEvent):
        return ('skip', e.char)
    return ('comb', match, combName (e))

def eventReal (e, kbd=None):
    if e[0] == 'skip':
        return W.SkipEvent (e[1])
    return combReal (e[2], kbd)

SIDE = {L.LEFT: ref.LEFT, L.RIGHT: ref.RIGHT}

def countsOf (stats):
    """ All counts of a dict of real statistics, by plain names, zero counts
    removed """
    c = ref.Counts ()
    for kind in ('simple', 'triads', 'words', 'runlen'):
        if kind in stats:
            addCounts (c, kind, stats[kind])
    return c

def addCounts (c, kind, s):
    if kind == 'simple':
        for b, n in s.buttons.items ():
            c.buttons[b.name] += n
        for b, n in s.combinations.items ():
            c.combinations[combName (b)] += n
        for b, n in s.unknown.items ():
            c.unknown[b] += n
    elif kind == 'triads':
        for t, n in s.triads.items ():
            c.triads[tuple (combName (x) for x in t)] += n
    elif kind == 'words':
        for w, n in s.words.items ():
            c.words[w] += n
    elif kind == 'runlen':
        for h, d in s.perHandRunlenDist.items ():
            for k, n in d.items ():
                c.hand[(SIDE[h], k)] += n
        for (h, f), d in s.fingerRunlenDist.items ():
            for k, n in d.items ():
                c.finger[((SIDE[h], int (f)), k)] += n

def freshStats (w):
    return {cls.name: cls (w) for cls in S.allStats}

KINDS = dict (simple=('buttons', 'combinations', 'unknown'), triads=('triads', ), words=('words', ), runlen=('hand', 'finger'))

def diff (got, want, kinds=ref.Counts.__slots__):
    """ None or a description of the first difference """
    g, w = got.dump (), want.dump ()
    for k in kinds:
        if g[k] != w[k]:
            extra = {a: b for a, b in g[k].items () if w[k].get (a) != b}
            missing = {a: b for a, b in w[k].items () if g[k].get (a) != b}
            return f'{k}: counted {core.short (extra, 300)}, should be {core.short (missing, 300)}'

class ChunkReader:
    """ Text stream which returns at most the rest of the current chunk per
    read, like a pipe or terminal """
    def __init__ (self, chunks):
        self.chunks = [c for c in chunks if c]
        self.reads = 0

    def read (self, n=-1):
        self.reads += 1
        if self.reads > 1000000:
            raise core.Violation ('endless reading')
        if not self.chunks or n == 0:
            return self.chunks[0][:0] if self.chunks else ''
        c = self.chunks[0]
        if n is None or n < 0:
            out = ''.join (self.chunks)
            self.chunks = []
            return out
        out, rest = c[:n], c[n:]
        if rest:
            self.chunks[0] = rest
        else:
            self.chunks.pop (0)
        return out

def splits (text):
    """ All ways to cut text into non-empty chunks """
    n = len (text)
    if n == 0:
        yield ()
        return
    for mask in range (1 << (n-1)):
        out, last = [], 0
        for i in range (1, n):
            if mask >> (i-1) & 1:
                out.append (text[last:i])
                last = i
        out.append (text[last:])
        yield tuple (out)

def realType (layout, fd, limit=None, writer=None):
    w = writer or W.Writer (layout)
    out = []
    for m, e in w.type (fd):
        out.append (eventName (m, e))
        if limit is not None and len (out) > limit:
            raise core.Violation (f'more events than characters: {out[:20]}')
    return out
