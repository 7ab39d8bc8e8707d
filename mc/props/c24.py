""" C24: display text """
import itertools, unicodedata, sys
from .. import kit, ref, core
from ..core import Suite, Violation, need, same, words
from ..refdisplay import display, SYMBOLS, initials
from lulua import util as U

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all 1 114 112 code points and of all strings up to a length over an alphabet with every kind of character, compared with an independent definition of the display form; all pairs of characters of every layout for distinctness'
RULE = 'states are the strings displayed (every code point counts); transitions are displays compared'
ASSUMPTIONS = ['the Unicode data is that of the Python installation']

class Chars (Suite):
    name = 'code-points'
    bounds = 'every code point alone (twice, in a row), after a letter, before a letter, doubled, and after a combining mark'
    def cases (self, tier):
        for i in range (0, 0x110000, 0x800):
            yield i

    def check (self, start, rec):
        for i in range (start, start+0x800):
            c = chr (i)
            for s in (c, c, c+'a', '\u0628'+c, c+c, '\u064e'+c):
                same (U.displayText (s), display (s), f'display of {s!r}')
            rec.step (6)
            rec.state (i)
        rec.trace ()

# one of each kind: letter, digit, spaces, controls, marks of several classes
# (one of them spacing, one with combining class 0), format characters
ALPHABET = ['a', '\u0628', '7', ' ', '\t', '\n', '\b', '\u202f', '\u00a0', '\x1c', '\u064e', '\u0654', '\u0300', '\u0903', '\u034f', '\u200c', '\u202a', '\ufeff', '\U000e0001', '\u25cc', '[', '\u0640']

class Strings (Suite):
    name = 'strings'
    bounds = f'all strings of up to 3 (thorough 4) of {len (ALPHABET)} characters, including the empty string and no text'
    def cases (self, tier):
        for pre in words (ALPHABET, 1):
            yield (pre, 3 if tier == 'quick' else 4)

    def check (self, case, rec):
        pre, n = case
        if not pre:
            same (U.displayText (None), None, 'display of no text')
        for t in words (ALPHABET, 0 if not pre else n-1):
            s = ''.join (pre + t)
            if s:
                same (U.displayText (s), display (s), f'display of {s!r}')
                rec.step ()
                rec.state (s)
        rec.trace ()

class Pairs (Suite):
    name = 'pairs'
    bounds = 'all pairs of control, format, space and separator characters and of these and the alphabet of the strings suite'
    def pool (self):
        return list (dict.fromkeys ([chr (i) for i in range (0x110000) if unicodedata.category (chr (i)) in ('Cc', 'Cf', 'Zs', 'Zl', 'Zp')] + ALPHABET + list (SYMBOLS)))

    def cases (self, tier):
        p = self.pool ()
        for i in range (0, len (p), 8):
            yield p[i:i+8]

    def check (self, part, rec):
        pool = self.pool ()
        for a in part:
            for b in pool:
                s = a+b
                if U.displayText (s) != display (s):
                    raise Violation (f'display of {s!r}: {U.displayText (s)!r}, expected {display (s)!r}')
                rec.state (s)
            rec.step (len (pool))
        rec.trace ()

class Marks (Suite):
    name = 'marks'
    bounds = 'every combining mark doubled, before and after every one of four other marks, and before a letter; marks repeated up to 40 times'
    def cases (self, tier):
        m = [i for i in range (0x110000) if unicodedata.combining (chr (i))]
        for i in range (0, len (m), 64):
            yield m[i:i+64]

    def check (self, marks, rec):
        for i in marks:
            c = chr (i)
            for o in ('\u064e', '\u0654', '\u0300', '\u3099'):
                for s in (c+o, o+c, c+o+c):
                    same (U.displayText (s), '\u25cc'+s, f'display of {s!r}')
                    rec.step ()
            for n in (2, 3, 40):
                same (U.displayText (c*n), '\u25cc'+c*n, f'display of {c!r} {n} times')
            same (U.displayText (c+'\u0628'), c+'\u0628', f'display of {c!r} and a letter')
            rec.step (4)
            rec.state (i)
        rec.trace ()

class Distinct (Suite):
    name = 'distinct'
    bounds = 'all pairs of strings of every shipped layout; all pairs of format, white space and combining characters below U+3000 and letters (by their display form)'
    parallel = False
    def cases (self, tier):
        yield from kit.layoutNames ()
        yield None

    def check (self, name, rec):
        if name is None:
            pool = [chr (i) for i in range (0x3000) if unicodedata.category (chr (i)) in ('Cf', 'Zs', 'Mn', 'Lo', 'Nd', 'Po', 'Lu', 'Ll')] + list (SYMBOLS)
        else:
            pool = list (kit.shipped (name)[1].strings)
        seen = {}
        for s in dict.fromkeys (pool):
            d = U.displayText (s)
            if d in seen:
                o = seen[d]
                cf = all (len (x) == 1 and unicodedata.category (x) == 'Cf' for x in (s, o))
                need (cf and initials (unicodedata.name (s)) == initials (unicodedata.name (o)),
                        f'{s!r} and {o!r} are both displayed as {d!r}')
            seen[d] = s
            rec.step ()
            rec.state ((name, s))
        rec.trace ()

SUITES = [Chars (), Strings (), Pairs (), Marks (), Distinct ()]
