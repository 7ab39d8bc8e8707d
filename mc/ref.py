"""
Reference models. Written from the documentation and the meaning of the
properties, independent of the code in /repo: plain names, tuples and counters,
no lulua classes.

A combination is (frozenset of modifier names, button name); an event is
('comb', match, combination) or ('skip', char).
"""
import collections, unicodedata

LEFT, RIGHT = 'L', 'R'
LITTLE, RING, MIDDLE, INDEX, THUMB = 1, 2, 3, 4, 5

# ten finger system on a 105 key keyboard: finger per column, by button name
_fingers = {
    'Bl': {'1': LITTLE, '2': LITTLE, '3': LITTLE, '4': RING, '5': MIDDLE, '6': INDEX, '7': INDEX},
    'Br': {'6': INDEX, '5': INDEX, '4': MIDDLE, '3': RING, '2': LITTLE, '1': LITTLE, '_bs': LITTLE},
    'Cl': {'_tab': LITTLE, '1': LITTLE, '2': RING, '3': MIDDLE, '4': INDEX, '5': INDEX},
    'Cr': {'7': INDEX, '6': INDEX, '5': MIDDLE, '4': RING, '3': LITTLE, '2': LITTLE, '1': LITTLE},
    'CD': {'_ret': LITTLE},
    'Dl': {'_caps': LITTLE, '1': LITTLE, '2': RING, '3': MIDDLE, '4': INDEX, '5': INDEX},
    'Dr': {'7': INDEX, '6': INDEX, '5': MIDDLE, '4': RING, '3': LITTLE, '2': LITTLE, '1': LITTLE},
    'El': {'_shift': LITTLE, '1': LITTLE, '2': LITTLE, '3': RING, '4': MIDDLE, '5': INDEX, '6': INDEX},
    'Er': {'5': INDEX, '4': INDEX, '3': MIDDLE, '2': RING, '1': LITTLE, '_shift': LITTLE},
    'Fl': {'_ctrl': LITTLE, '_fn': LITTLE, '_win': THUMB, '_alt': THUMB, '_space': THUMB},
    'Fr': {'_space': THUMB, '_altgr': THUMB, '_win': THUMB, '_menu': THUMB, '_ctrl': LITTLE},
    }
handFinger = {row + k: (RIGHT if row[1] in 'rD' else LEFT, f) for row, m in _fingers.items () for k, f in m.items ()}

def hand (name):
    return handFinger[name][0]

class Layout:
    """ Reference layout from plain data: [(modifiers: [[names]], {button: text})] """
    def __init__ (self, layers):
        self.layers = [([frozenset (m) for m in mods], dict (lay)) for mods, lay in layers]
        self.strings = collections.OrderedDict ()
        self.text = {}
        for mods, lay in self.layers:
            for btn, s in lay.items ():
                for m in mods:
                    self.strings.setdefault (s, []).append ((m, btn))
                    self.text[(m, btn)] = s
        self.maxlen = max (map (len, self.strings), default=0)

    @classmethod
    def fromData (cls, data):
        return cls ([(l['modifier'], l['layer']) for l in data['layout']])

def tokenize (layout, text):
    """ Longest match at every position """
    i = 0
    while i < len (text):
        for n in range (min (layout.maxlen, len (text)-i), 0, -1):
            if text[i:i+n] in layout.strings:
                yield 'comb', text[i:i+n]
                i += n
                break
        else:
            yield 'skip', text[i]
            i += 1

def effortOf (comb, prev):
    mods, btn = comb
    side = {LEFT: 1, RIGHT: -1}
    keys = list (mods) + [btn]
    balance = abs (sum (side[hand (k)] for k in keys))
    if prev is None:
        pb = 0
    else:
        pm, pbtn = prev
        pb = abs (sum (side[hand (k)] for k in (pm or [pbtn])) + side[hand (btn)])
    return len (keys), balance, pb

def choose (combs, prev):
    best = None
    for c in combs:
        e = effortOf (c, prev)
        if best is None or e < best[0]:
            best = e, c
    return best[1]

def typeText (layout, text, prev=None):
    """ Returns list of events, last combination """
    out = []
    for kind, s in tokenize (layout, text):
        if kind == 'skip':
            out.append (('skip', s))
        else:
            prev = choose (layout.strings[s], prev)
            out.append (('comb', s, prev))
    return out, prev

IGNORED = {'Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab'}

class Counts:
    """ All statistics of a sequence of events, computed from the definition
    over the whole sequence (not incrementally) """
    __slots__ = ('buttons', 'combinations', 'unknown', 'triads', 'words', 'hand', 'finger')
    def __init__ (self):
        for k in self.__slots__:
            setattr (self, k, collections.Counter ())

    def add (self, o):
        for k in self.__slots__:
            getattr (self, k).update (getattr (o, k))
        return self

    def copy (self):
        return Counts ().add (self)

    def dump (self):
        return {k: {a: b for a, b in getattr (self, k).items () if b} for k in self.__slots__}

    def __eq__ (self, o):
        return self.dump () == o.dump ()

def stretches (events):
    """ Split at skips; the flag tells whether the stretch is complete (was
    followed by a skip) """
    cur = []
    for e in events:
        if e[0] == 'skip':
            yield cur
            cur = []
        else:
            cur.append (e)
    yield cur

def runs (seq):
    """ Maximal runs which are followed by something else """
    n = 0
    for i, x in enumerate (seq):
        n += 1
        if i+1 < len (seq) and seq[i+1] != x:
            yield x, n
            n = 0

def count (events):
    c = Counts ()
    for e in events:
        if e[0] == 'skip':
            c.unknown[e[1]] += 1
        else:
            mods, btn = e[2]
            c.combinations[e[2]] += 1
            for k in mods:
                c.buttons[k] += 1
            c.buttons[btn] += 1
    for st in stretches (events):
        t = [e[2] for e in st if e[2][1] not in IGNORED]
        for i in range (len (t)-2):
            c.triads[tuple (t[i:i+3])] += 1
        c.hand.update (runs ([hand (e[2][1]) for e in st]))
        c.finger.update (runs ([handFinger[e[2][1]] for e in st]))
        word = ''
        for ch in ''.join (e[1] for e in st):
            if unicodedata.category (ch) in ('Lo', 'Mn'):
                word += ch
            else:
                if word:
                    c.words[word] += 1
                word = ''
    return c
