""" C04: word and run length statistics """
from .. import statcheck

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of event sequences up to a depth (plus pumped long sequences) fed to the real statistics classes, compared with counts computed from the definition'
RULE = 'a case is a prefix of events; all continuations up to the depth bound over an alphabet covering letters, marks, multi-character and mixed strings, other categories, both hands, several fingers, modifiers of the other hand and skips are fed; every sequence is distinct'
ASSUMPTIONS = ['events of one writer on one keyboard (ibmpc105)']

LAYERS = [
    ([[]], {'Dl1': '\u0628', 'Cl1': '\u062a', 'Dl4': '\u064e', 'Dr3': '\u062b', 'Dr6': '\u0644\u0627', 'Cl5': '1', 'Fl_space': ' ', 'Fr_space': ' ',
        'Er2': '\u0628.\u062a', 'El6': 'a'}),
    ([['El_shift'], ['Er_shift']], {'Dl1': '\u062c', 'Dr3': '.'}),
    ]
EVENTS = [
    # letter, same finger as the next one
    ('comb', '\u0628', (frozenset (), 'Dl1')),
    ('comb', '\u062a', (frozenset (), 'Cl1')),
    # mark, other finger of the same hand
    ('comb', '\u064e', (frozenset (), 'Dl4')),
    # other hand, same finger type
    ('comb', '\u062b', (frozenset (), 'Dr3')),
    # two letters at once
    ('comb', '\u0644\u0627', (frozenset (), 'Dr6')),
    # letter, modifier with the other hand
    ('comb', '\u062c', (frozenset (['Er_shift']), 'Dl1')),
    # number, same finger as the mark
    ('comb', '1', (frozenset (), 'Cl5')),
    ('comb', ' ', (frozenset (), 'Fr_space')),
    # delimiter inside
    ('comb', '\u0628.\u062a', (frozenset (), 'Er2')),
    # cased letter is not a word character
    ('comb', 'a', (frozenset (), 'El6')),
    ('skip', 'x'),
    ]
KINDS = ('words', 'runlen')
SUITES = statcheck.suites (LAYERS, EVENTS, KINDS, ('\u0628', '\u064e', '\u0644\u0627', ' ', '1', '\ufffd', '\u062c', '\u0628.\u062a'))

import sys, unicodedata
from .. import kit, ref
from ..core import Suite, Violation
from lulua import writer as W, stats as S

class Unicode (Suite):
    """ every character is either part of a word or ends it """
    name = 'unicode'
    bounds = 'all Unicode code points except surrogates, each typed between two letters and ended by a space'
    STEP = 4096
    def cases (self, tier):
        yield from range (0, sys.maxunicode+1, self.STEP)

    def check (self, start, rec):
        names = sorted (ref.handFinger)
        names = [n for n in names if n not in ('Fl_fn', 'Dl1', 'Fl_space')]
        chars = [chr (i) for i in range (start, start+self.STEP) if not 0xd800 <= i < 0xe000]
        layers = [([[]], {'Dl1': '\u0628', 'Fl_space': ' '})]
        combs = {}
        mods = [(a, b) for i, a in enumerate (names) for b in names[:i]]
        for i in range (0, len (chars), len (names)):
            m = mods[i//len (names)]
            part = dict (zip (names, chars[i:i+len (names)]))
            layers.append (([m], part))
            for b, c in part.items ():
                combs[c] = (frozenset (m), b)
        real, lay = kit.build (layers)
        w = W.Writer (real)
        letter, space = kit.combReal ((frozenset (), 'Dl1')), kit.combReal ((frozenset (), 'Fl_space'))
        kbd = {b.name: b for b in kit.keyboard ().keys ()}
        for c in chars:
            s = S.WordStats (w)
            m, b = combs[c]
            for e in (letter, kit.L.ButtonCombination (frozenset (kbd[x] for x in m), frozenset ([kbd[b]])), letter, space):
                s.process (e)
            word = unicodedata.category (c) in ('Lo', 'Mn')
            want = {f'\u0628{c}\u0628': 1} if word else {'\u0628': 2}
            if dict (s.words) != want:
                raise Violation (f'U+{ord (c):04X} ({unicodedata.category (c)}) between two letters: words {dict (s.words)!r}, expected {want!r}')
            rec.step (4)
            rec.outcome (unicodedata.category (c))
        rec.trace (len (chars))
        rec.state (start)

SUITES.append (Unicode ())
