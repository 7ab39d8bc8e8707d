""" C01: typing is lossless, longest match, independent of read sizes """
import itertools, io
from .. import kit, ref
from ..core import Suite, need, same, words

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive bounded enumeration of layouts x texts x read splits, run on the real Writer in lock step with a reference tokenizer'
RULE = 'a case is a layout (set of strings); every text up to the length bound over its alphabet (plus an untypable character) and every listed split of the text into reads is typed; all are distinct'
ASSUMPTIONS = ['the keyboard of synthetic layouts is ibmpc105 and every string sits on its own letter button']

def model (lay, text):
    return [(k, s) for k, s in ref.tokenize (lay, text)]

def check (real, lay, text, chunks, rec, what):
    fd = io.StringIO (text) if chunks is None else kit.ChunkReader (chunks)
    got = kit.realType (real, fd, limit=len (text)+2)
    want = model (lay, text)
    plain = [(e[0], e[1]) for e in got]
    if plain != want:
        same (plain, want, f'{what}: events for {text!r} read as {chunks!r}')
    need (''.join (e[1] for e in got) == text, lambda: f'{what}: text typed for {text!r}')
    for e in got:
        if e[0] == 'comb':
            need (e[2] in lay.strings[e[1]], lambda: f'{what}: {e[1]!r} typed by {e[2]}, which is not one of {lay.strings[e[1]]}')
            rec.step ()
    rec.step (len (got))
    rec.trace ()
    return got

BUTTONS = ('Dl1', 'Dr3', 'Cl2', 'Er2', 'Bl5')

class Synthetic (Suite):
    name = 'synthetic-layouts'
    bounds = 'all layouts with 0..3 (thorough 0..4) strings of length <= 3 over {a,b}; all texts of length <= 5 (thorough 6) over {a,b,x}; one read, and all splits into reads for texts up to length 4 (thorough 5), single characters beyond'
    def cases (self, tier):
        pool = [''.join (x) for x in words ('ab', 3, 1)]
        for n in range (0, 4 if tier == 'quick' else 5):
            for strings in itertools.combinations (pool, n):
                yield (tier, strings)

    def check (self, case, rec):
        tier, strings = case
        real, lay = kit.build ([([[]], dict (zip (BUTTONS, strings)))])
        n, full = (5, 4) if tier == 'quick' else (6, 5)
        for t in words ('abx', n):
            text = ''.join (t)
            check (real, lay, text, None, rec, f'layout {strings}')
            for chunks in (kit.splits (text) if len (text) <= full else [tuple (text)]):
                if len (chunks) > 1:
                    check (real, lay, text, chunks, rec, f'layout {strings}')
            rec.state ((strings, text))
        rec.sample (repr (strings))

class Layered (Suite):
    """ the same string on several layers, modifiers, hands """
    name = 'layered-layouts'
    bounds = 'all assignments of 4 strings (a, b, ab, none) to 2 buttons x 3 layers; texts of length <= 4 over {a,b,x}; layouts of 2 to 8 layers with every assignment of a, aab, ab, aaaab and none to the last two of them'
    def cases (self, tier):
        yield from itertools.product (('a', 'b', 'ab', None), repeat=6)
        for n in range (2, 9):
            yield ('many', n)

    def many (self, n, rec):
        keys = ('Fl_ctrl', 'El_shift', 'Fr_altgr', 'Fl_alt', 'Er_shift', 'Dl_caps', 'Fr_ctrl')
        for strings in itertools.product (('a', 'aab', 'ab', 'aaaab', None), repeat=3):
            layers = [([[keys[i-1]]] if i else [[]], {'Dl1': 'c'} if i < n-2 else {b: s for b, s in zip (('Dl2', 'Dr3'), strings[:2] if i == n-2 else strings[2:]) if s is not None}) for i in range (n)]
            real, lay = kit.build (layers)
            for t in words ('abx', 3):
                for text in (''.join (t), 'aa' + ''.join (t) + 'aab', 'aaa' + ''.join (t)):
                    check (real, lay, text, None, rec, f'{n} layers, the last ones with {strings}')
            rec.state ((n, strings))

    def check (self, case, rec):
        if case[0] == 'many':
            return self.many (case[1], rec)
        mods = ([[]], [['El_shift'], ['Er_shift']], [['El_shift', 'Fr_altgr'], ['Fr_altgr']])
        layers = [(m, {b: s for b, s in zip (('Dl1', 'Dr3'), case[2*i:2*i+2]) if s is not None}) for i, m in enumerate (mods)]
        real, lay = kit.build (layers)
        for t in words ('abx', 4):
            check (real, lay, ''.join (t), None, rec, f'layout {case}')
        rec.state (case)

class Shipped (Suite):
    name = 'shipped-pairs'
    bounds = 'every shipped layout: all ordered pairs of its strings, all prefixes of its multi-character strings followed by every string, with and without an untypable character in between, typed in one read and in reads of 1 and 2 characters'
    def cases (self, tier):
        for name in kit.layoutNames (null=True):
            real, lay = kit.shipped (name)
            if not lay.strings:
                yield (name, None)
            for s in lay.strings:
                yield (name, s)

    def check (self, case, rec):
        name, s = case
        real, lay = kit.shipped (name)
        if s is None:
            for t in words ('a\u0627 \n', 4):
                text = ''.join (t)
                check (real, lay, text, None, rec, name)
                check (real, lay, text, tuple (text), rec, name)
                rec.state ((name, text))
            return
        heads = [s] + [s[:i] for i in range (1, len (s))]
        for h in heads:
            for o in list (lay.strings) + ['\ufffd', '']:
                for mid in ('', '\ufffd'):
                    text = h + mid + o
                    rec.state ((name, text))
                    check (real, lay, text, None, rec, name)
                    check (real, lay, text, tuple (text), rec, name)
                    if len (text) > 2:
                        check (real, lay, text, tuple (text[i:i+2] for i in range (0, len (text), 2)), rec, name)
        rec.sample (f'{name}: {s!r}')

class ShippedWords (Suite):
    name = 'shipped-words'
    bounds = 'every shipped layout with multi-character strings: all texts up to length 4 (thorough 5) over the (at most 7) characters of those strings, a space and an untypable character; one read and single characters'
    def cases (self, tier):
        for name in kit.layoutNames ():
            real, lay = kit.shipped (name)
            chars = []
            for s in sorted ((s for s in lay.strings if len (s) > 1), key=lambda x: (-len (x), x)):
                for c in s:
                    if c not in chars:
                        chars.append (c)
            chars = chars[:7] + [' ', '\ufffd']
            for first in chars:
                yield (tier, name, first, ''.join (chars))

    def check (self, case, rec):
        tier, name, first, chars = case
        real, lay = kit.shipped (name)
        for t in words (chars, 3 if tier == 'quick' else 4):
            text = first + ''.join (t)
            check (real, lay, text, None, rec, name)
            check (real, lay, text, tuple (text), rec, name)
            rec.state ((name, text))

def representatives ():
    """ the first letter-like code points of every Unicode category, and characters
    code likes to treat specially """
    import unicodedata
    per = {}
    for cp in range (0x110000):
        cat = unicodedata.category (chr (cp))
        if cat in ('Cs', 'Co', 'Cn'):
            continue
        if cat not in per:
            per[cat] = chr (cp)
    out = list (per.values ()) + list ('\0\t\n\r a.0*?[\\\u0627\u0644\u0651\u064e\u0654\u0640\u200c\u200d\u2069\ufeff\u00a0\u202f\ufefb\u00e9\U0001f600\U000e0001')
    return sorted (set (out))

class Categories (Suite):
    name = 'character-kinds'
    bounds = 'all ordered pairs (c, d) of about 50 representative characters (one of every Unicode category, control, format, combining, precomposed and astral characters); layouts {c,d,cd}, {c,cdc}, {cd}; all texts up to length 3 over {c,d,untypable} in one read and in single characters'
    def cases (self, tier):
        yield from itertools.product (representatives (), repeat=2)

    def check (self, case, rec):
        c, d = case
        x = '\ufffd'
        for strings in ({c: 1, d: 1, c+d: 1}, {c: 1, c+d+c: 1}, {c+d: 1}):
            real, lay = kit.build ([([[]], dict (zip (BUTTONS, strings)))])
            for t in words ((c, d, x) if c != d else (c, x), 3, 1):
                text = ''.join (t)
                check (real, lay, text, None, rec, f'layout {list (strings)}')
                check (real, lay, text, tuple (text), rec, f'layout {list (strings)}')
                rec.state ((tuple (strings), text))

class Long (Suite):
    name = 'long-texts'
    bounds = 'prefix (<= 1) + period (<= 3) repeated to more than 2100 (thorough 70000) characters over {a,b,x}, four overlapping layouts, read sizes 1, 7, 4096 and everything'
    def cases (self, tier):
        n = 2100 if tier == 'quick' else 70000
        for strings in (('a', 'b'), ('a', 'ab', 'aba'), ('a', 'aab', 'b'), ('ab', 'bba', 'a')):
            for pre in words ('abx', 1):
                for per in words ('abx', 3, 1):
                    yield (n, strings, ''.join (pre), ''.join (per))

    def check (self, case, rec):
        n, strings, pre, per = case
        real, lay = kit.build ([([[]], dict (zip (BUTTONS, strings)))])
        text = pre + per * (n//len (per)+1)
        for size in (None, 1, 7, 4096):
            chunks = None if size is None else tuple (text[i:i+size] for i in range (0, len (text), size))
            check (real, lay, text, chunks, rec, f'layout {strings}, text {pre!r}+{per!r}*')
        rec.state (case)

class LongStrings (Suite):
    name = 'long-strings'
    bounds = 'layouts with strings of up to 9 (thorough 16) characters: all {a^i, a^j, a^k b} and {(ab)^i, (ab)^j a, b}; texts a^m, a^m b, a^m x, a^m b a^m b and (ab)^m, (ab)^m a, (ab)^m x of every length up to two longest strings; one read, single characters, reads of 3; {a, a^n, a^(n-1) b} for n = 15, 16, 17, 31, 33, 63, 65 (thorough 127, 129, 257, too)'
    def cases (self, tier):
        for n in (15, 16, 17, 31, 33, 63, 65) + ((127, 129, 257) if tier != 'quick' else ()):
            yield ('a', n, ('a', 'a'*n, 'a'*(n-1) + 'b'))
        n = 9 if tier == 'quick' else 16
        for i in range (1, n+1):
            for j in range (i+1, n+1):
                for k in range (1, n):
                    yield ('a', n, ('a'*i, 'a'*j, 'a'*k + 'b'))
        for i in range (1, n//2+1):
            for j in range (1, n//2+1):
                yield ('ab', n, ('ab'*i, 'ab'*j + 'a', 'b'))

    def check (self, case, rec):
        per, n, strings = case
        real, lay = kit.build ([([[]], dict (zip (BUTTONS, strings)))])
        for m in range (1, 2*n+2):
            t = per*m
            for text in ((t, t+'b', t+'x', t+'b'+t+'b') if per == 'a' else (t, t+'a', t+'x', 'b'+t)):
                for size in (None, 1, 3):
                    chunks = None if size is None else tuple (text[i:i+size] for i in range (0, len (text), size))
                    check (real, lay, text, chunks, rec, f'layout {strings}')
                rec.state ((strings, text))

class Everything (Suite):
    name = 'all-characters'
    bounds = 'every character of the Basic Multilingual Plane and every 16th beyond (no surrogates), in layouts of 248 strings each: alone, after and before an untypable character, followed by itself and by its neighbour; as untypable character between typable ones; most of them at the start and at the end of a longer string and tripled; one read and single characters'
    KEYS = 62
    def chars (self):
        return [chr (c) for c in itertools.chain (range (0x10000), range (0x10000, 0x110000, 16)) if not 0xd800 <= c < 0xe000]

    def cases (self, tier):
        n = len (self.chars ())
        yield from range (0, n, 248)

    def check (self, start, rec):
        cs = self.chars ()[start:start+248]
        keys = [b.name for b in kit.keyboard ().keys () if b.name not in ('El_shift', 'Er_shift', 'Fr_altgr')][:self.KEYS]
        mods = ([[]], [['El_shift'], ['Er_shift']], [['Fr_altgr']], [['El_shift', 'Fr_altgr']])
        real, lay = kit.build ([(m, dict (zip (keys, cs[i*self.KEYS:(i+1)*self.KEYS]))) for i, m in enumerate (mods)])
        x = '\u0627' if '\u0627' not in cs else 'x'
        text = ''.join (c + c + x + c + d + x + d for c, d in zip (cs, cs[1:] + cs[:1]))
        check (real, lay, text, None, rec, f'layout with {cs[0]!r} to {cs[-1]!r}')
        check (real, lay, text, tuple (text), rec, f'layout with {cs[0]!r} to {cs[-1]!r}')
        # the other way around
        real, lay = kit.build ([([[]], {'Dl1': x, 'Dr3': x + x})])
        text = ''.join (x*(i % 3) + c + c + x for i, c in enumerate (cs))
        check (real, lay, text, None, rec, f'untypable {cs[0]!r} to {cs[-1]!r}')
        check (real, lay, text, tuple (text), rec, f'untypable {cs[0]!r} to {cs[-1]!r}')
        # as a part of longer strings, at their ends, where reads end
        for part in range (0, len (cs), 82):
            some = [c for c in cs[part:part+82] if not (0x3400 <= ord (c) < 0xa000 or 0xac00 <= ord (c) < 0xd7a4 or ord (c) >= 0x10000) or ord (c) % 64 == 0]
            if not some:
                continue
            strings = [x] + [x + c for c in some] + [c + x for c in some] + [c + c + c for c in some if c != x]
            strings = list (dict.fromkeys (s for s in strings))
            real, lay = kit.build ([(m, dict (zip (keys, strings[i*self.KEYS:(i+1)*self.KEYS]))) for i, m in enumerate (mods)])
            text = ''.join (x + c + c + x + c + x + c + c + c + c + x + x for c in some)
            check (real, lay, text, None, rec, f'strings with {some[0]!r} to {some[-1]!r}')
            check (real, lay, text, tuple (text), rec, f'strings with {some[0]!r} to {some[-1]!r}')
            for c in some:
                # at the end of the text
                for text in (x + c, c + x, c + c + c, c + c, c):
                    check (real, lay, text, None, rec, f'strings with {some[0]!r} to {some[-1]!r}')
        for c in cs:
            rec.state (c)

SUITES = [Everything (), LongStrings (), Synthetic (), Layered (), Shipped (), ShippedWords (), Categories (), Long ()]
