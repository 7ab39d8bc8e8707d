""" C21: KLC import """
import itertools, os, re, unicodedata
import yaml
from .. import kit, ref, core, refexport as X
from ..core import Suite, Violation, need, same, words
from lulua import layout as L

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of Keyboard Layout Creator files (every character on some key, every key and column, all orders of a line alphabet); the real import command runs on each file and the layout it writes is loaded and compared with an independent reading of the file'
RULE = 'states are the distinct files imported; transitions are the entries (key, column) compared with the loaded layout'
ASSUMPTIONS = ['columns are the default ones of KLC files: base, shift, ctrl, shift+ctrl, altgr, shift+altgr', 'dead keys (@ suffix) are outside of the property', 'files are well-formed; a virtual key is defined at most once']

# set 1 scancode of every virtual key of a standard (US) keyboard
VK = dict (zip ('1 2 3 4 5 6 7 8 9 0 OEM_MINUS OEM_PLUS'.split (), range (0x02, 0x0e)))
VK.update (zip ('Q W E R T Y U I O P OEM_4 OEM_6'.split (), range (0x10, 0x1c)))
VK.update (zip ('A S D F G H J K L OEM_1 OEM_7 OEM_3'.split (), range (0x1e, 0x2a)))
VK.update (zip ('OEM_5 Z X C V B N M OEM_COMMA OEM_PERIOD OEM_2'.split (), range (0x2b, 0x36)))
VK.update (SPACE=0x39, OEM_102=0x56)
BUTTON = {}
for b, code in X.WINDOWS.items ():
    for vk, sc in VK.items ():
        if code == (sc, ):
            BUTTON.setdefault (vk, set ()).add (b)
assert set (BUTTON) == set (VK), set (VK) - set (BUTTON)

KIND = {'El_shift': 'shift', 'Er_shift': 'shift', 'Fl_ctrl': 'ctrl', 'Fr_ctrl': 'ctrl', 'Fr_altgr': 'altgr'}
COLUMNS = [(), ('shift', ), ('ctrl', ), ('ctrl', 'shift'), ('altgr', ), ('altgr', 'shift')]

HEADER = '''KBD\tTEST\t"Test"

COPYRIGHT\t"(c) 2019"
COMPANY\t"Company"
LOCALENAME\t"ar-SA"
LOCALEID\t"00000401"
VERSION\t1.0

SHIFTSTATE

0\t//Column 4
1\t//Column 5 : Shft
2\t//Column 6 :       Ctrl
3\t//Column 7 : Shft  Ctrl
6\t//Column 8 :       Ctrl Alt
7\t//Column 9 : Shft  Ctrl Alt

'''
LAYOUT = '''LAYOUT\t\t;an extra '@' at the end is a dead key

//SC\tVK_\t\tCap\t0\t1\t2\t3\t6\t7
//--\t----\t\t----\t----\t----\t----\t----\t----\t----

'''
FOOTER = '''
KEYNAME

01\tEsc
0e\tBackspace
10\tQ\t0\t0065\t0066

KEYNAME_EXT

1c\t"Num Enter"

DESCRIPTIONS

0409\tTest
LANGUAGENAMES

0409\tArabic
ENDKBD
'''

# without those which introduce comments or mean something else
PUNCT = '!"#$&\'()*+,.:<=>?[\\]^_`{|}~'

def entry (c, style):
    """ A character the way KLC writes it """
    if c is None:
        return '-1'
    if style != 'hex' and c.isascii () and c.isalnum () or style == 'punct' and c in PUNCT:
        return c
    s = f'{ord (c):04x}'
    return s.upper () if style == 'upper' else s

def row (vk, chars, style='lit', comment=None, cap=0, pad='\t'):
    return f'{VK.get (vk, 0x53):02x}{pad}{vk}{pad}{cap}' + ''.join (pad + entry (c, style) for c in chars) + \
            ('' if comment is None else f'{pad}{comment}')

def importFile (data):
    with core.Scratch () as d:
        fn = os.path.join (d, 'in.klc')
        with open (fn, 'wb') as fd:
            fd.write (data)
        r = core.cli (L.importFrom, [fn, 'klc'])
    need (r.ret in (None, 0), f'exit status {r.ret}')
    return yaml.safe_load (r.out.decode ('utf-8'))

def check (text, want, rec, what, encoding='utf-16', eol='\r\n'):
    """ want: {(vk, column): char} """
    data = importFile (text.replace ('\n', eol).encode (encoding))
    generic = L.GenericLayout.deserialize (data)
    lay = generic.specialize (kit.keyboard ())
    got = {}
    for mods, layer in ((l.modifier, l.layout) for l in lay.layers):
        kinds = set ()
        for m in mods:
            k = sorted (KIND.get (b.name, '?') for b in m)
            kinds.add (tuple (k))
        need (len (kinds) == 1 and next (iter (kinds)) in COLUMNS, f'{what}: modifiers {mods!r}')
        col = COLUMNS.index (next (iter (kinds)))
        for b, t in layer.items ():
            need ((b.name, col) not in got, f'{what}: column {col} in two layers')
            got[(b.name, col)] = t
    n = 0
    for (vk, col), c in want.items ():
        at = [b for b in BUTTON[vk] if (b, col) in got]
        exp = unicodedata.normalize ('NFD', c)
        need (at, f'{what}: {c!r} of virtual key {vk}, column {col}, is missing')
        for b in at:
            same (got.pop ((b, col)), exp, f'{what}: virtual key {vk}, column {col}')
        n += 1
    need (not got, f'{what}: invented {got}')
    rec.step (n)
    rec.trace ()
    rec.state (text)

class Chars (Suite):
    name = 'characters'
    bounds = 'every assigned or unassigned BMP code point except surrogates, each on some key and column (49 keys times 6 columns per file), hexadecimal in either case, and every ASCII letter, digit and (except for those with a meaning) punctuation literally'
    def cases (self, tier):
        n = len (VK)*6
        pool = [i for i in range (0x10000) if not 0xd800 <= i < 0xe000]
        for i in range (0, len (pool), n):
            yield (pool[i], 'hex' if tier == 'quick' else 'upper', n)
            if tier == 'thorough':
                yield (pool[i], 'hex', n)
        yield (0x30, 'lit', n)
        yield (0x21, 'punct', n)
        yield (0x30, 'hex', n)

    def check (self, case, rec):
        start, style, n = case
        chars = [chr (i) for i in range (start, 0x10000) if not 0xd800 <= i < 0xe000][:n]
        want = {}
        text = HEADER + LAYOUT
        keys = list (VK)
        for k in range (0, len (chars), 6):
            vk = keys[k//6]
            part = chars[k:k+6]
            text += row (vk, part, style, f'// comment {k}') + '\n'
            want.update (((vk, i), c) for i, c in enumerate (part))
        check (text + FOOTER, want, rec, f'characters from {start:04x} ({style})')

class Keys (Suite):
    name = 'keys'
    bounds = 'every virtual key alone with every subset of its six columns filled (%% or -1 otherwise), all keys together, rows of 0 to 6 columns, tabs or spaces'
    def cases (self, tier):
        for vk in VK:
            yield vk

    def check (self, vk, rec):
        base = 'aB9ء\u0622.'
        for mask in range (64):
            for empty in (('-1', '%%') if mask in (0, 21, 42, 62, 63) else ('-1', )):
                for pad in ('\t', '    ', ' \t') if mask % 7 == 0 else ('\t', ):
                    chars = [c if mask >> i & 1 else None for i, c in enumerate (base)]
                    line = row (vk, chars, pad=pad).replace ('-1', empty)
                    check (HEADER + LAYOUT + line + '\n' + FOOTER, {(vk, i): c for i, c in enumerate (chars) if c}, rec,
                            f'{vk} {mask:06b} {empty}')
        for n in range (0, 7):
            for cap in (0, 1, 4, 5, 'SGCap'):
                check (HEADER + LAYOUT + row (vk, base[:n], cap=cap) + '\n' + FOOTER,
                        {(vk, i): c for i, c in enumerate (base[:n])}, rec, f'{vk}, {n} columns, cap {cap}')

# lines of the layout section: (text, what it defines)
def lines ():
    q = {('Q', 0): 'ض', ('Q', 1): '\u064e'}
    return [
        ('', {}),
        ('// a comment', {}),
        ('//10\tQ\t0\t0061\t0062', {}),
        ('; 10 Q 0 0061 0062', {}),
        (row ('Q', ['ض', '\u064e']) , q),
        (row ('A', ['a', 'A', None, None, None, '\u0628'], comment='// a, A, <none>, b'), {('A', 0): 'a', ('A', 1): 'A', ('A', 5): '\u0628'}),
        (row ('OEM_1', ['/', ';', '\x1c'], comment='// SOLIDUS // ; SEMICOLON'), {('OEM_1', 0): '/', ('OEM_1', 1): ';', ('OEM_1', 2): '\x1c'}),
        (row ('DECIMAL', ['.', '.']), {}),
        (row ('ABNT_C1', ['x', 'y', 'z']), {}),
        (row ('SPACE', [' ', '\u00a0'], comment='// SPACE'), {('SPACE', 0): ' ', ('SPACE', 1): '\u00a0'}),
        (row ('5', ['5', '%'], cap=1) + '\t%%', {('5', 0): '5', ('5', 1): '%'}),
        (row ('OEM_102', [None, None]), {}),
        (row ('W', ['\u0635', 'W']) + ' // \u0635, W', {('W', 0): '\u0635', ('W', 1): 'W'}),
        (row ('E', ['e', None]) + '  ; e', {('E', 0): 'e'}),
        ]

class Orders (Suite):
    name = 'line-orders'
    bounds = 'all sequences of up to 3 (thorough 4) distinct lines of a 14 line alphabet in the layout section, without and with a blank line'
    def cases (self, tier):
        n = len (lines ())
        for k in range (0, 4 if tier == 'quick' else 5):
            yield from itertools.permutations (range (n), k)

    def check (self, idx, rec):
        ll = lines ()
        want = {}
        for i in idx:
            want.update (ll[i][1])
        check (HEADER + LAYOUT + ''.join (ll[i][0] + '\n' for i in idx) + FOOTER, want, rec, f'lines {[ll[i][0] for i in idx]}')

SECTIONS = [
    ('LIGATURE\n\n//VK_\tMod#\tChar0\tChar1\nG\t1\t0644\t0627\nT\t0\t0644\t0625\n', ),
    ('DEADKEY\t0060\n\n0061\t00e0\t// a -> à\n10\tQ\t0\t0065\n', ),
    ('KEYNAME\n\n01\tEsc\n10\tW\t0\t0065\n', ),
    ('KEYNAME_EXT\n\n1c\t"Num Enter"\n11 W 0 0065\n', ),
    ('KEYNAME_DEAD\n\n0060\t"GRAVE ACCENT"\n1e S 0 0065\n', ),
    ('DESCRIPTIONS\n\n0409\tArabic\n10 Q 0 0061\n', ),
    ('LANGUAGENAMES\n\n0409\tArabic (Saudi Arabia)\n0409 E 0 0061\n', ),
    ('ENDKBD\n', ),
    ]

class Sections (Suite):
    name = 'sections'
    bounds = 'the layout section followed by every sequence of up to 3 (thorough 4) distinct other sections, files in UTF-16 little and big endian with byte order mark, CRLF and LF'
    def cases (self, tier):
        for k in range (0, 4 if tier == 'quick' else 5):
            for idx in itertools.permutations (range (len (SECTIONS)), k):
                yield idx

    def check (self, idx, rec):
        body = row ('Z', ['z', 'Z']) + '\n' + row ('OEM_5', ['\\', '|', None, None, '\u0625']) + '\n'
        want = {('Z', 0): 'z', ('Z', 1): 'Z', ('OEM_5', 0): '\\', ('OEM_5', 1): '|', ('OEM_5', 4): '\u0625'}
        text = HEADER + LAYOUT + body + '\n' + '\n'.join (SECTIONS[i][0] for i in idx)
        check (text, want, rec, f'sections {[SECTIONS[i][0].split ()[0] for i in idx]}')
        if len (idx) <= 1:
            bom = '\ufeff'
            for enc in ('utf-16-le', 'utf-16-be'):
                for eol in ('\r\n', '\n'):
                    check (bom + text, want, rec, f'{enc} {eol!r}', enc, eol)

class Distinct (Suite):
    name = 'distinct'
    bounds = 'all pairs of virtual keys'
    def cases (self, tier):
        yield from itertools.combinations (VK, 2)

    def check (self, case, rec):
        a, b = case
        check (HEADER + LAYOUT + row (a, 'xy') + '\n' + row (b, 'uvw') + '\n' + FOOTER,
            {(a, 0): 'x', (a, 1): 'y', (b, 0): 'u', (b, 1): 'v', (b, 2): 'w'}, rec, f'{a} and {b}')

STATES = {0: 0, 1: 1, 2: 2, 3: 3, 6: 4, 7: 5}
class States (Suite):
    name = 'shift-states'
    bounds = 'all files whose columns are any non-empty subset of the six shift states, in ascending order, all orders of up to 4 (thorough 6) of them, with the unsupported states 4 (Alt) and 5 (Alt and shift) at every position; rows with fewer entries than columns'
    def cases (self, tier):
        s = sorted (STATES)
        for k in range (1, 7):
            yield from itertools.combinations (s, k)
        for k in range (2, 5 if tier == 'quick' else 7):
            for p in itertools.permutations (s, k):
                if list (p) != sorted (p):
                    yield p
        for k in (2, 5):
            for c in itertools.combinations (s, k):
                for extra in ((4, ), (5, ), (4, 5)):
                    for i in range (k+1):
                        yield c[:i] + extra + c[i:]

    def check (self, states, rec):
        i = HEADER.index ('SHIFTSTATE')
        header = HEADER[:i] + 'SHIFTSTATE\n\n' + ''.join (f'{s}\t//Column {4+k} : x\n' for k, s in enumerate (states)) + '\n'
        chars = ['\u0628', 'B', '7', '\u0622', '.', '\u064b', 'x', 'y'][:len (states)]
        want = lambda vk, cs: {(vk, STATES[s]): c for s, c in zip (states, cs) if s in STATES and c}
        body = row ('Q', chars) + '\n' + row ('OEM_2', [c if k % 2 else None for k, c in enumerate (chars)], comment='// none, b') + '\n' + row ('5', chars[:-1]) + '\n'
        w = dict (want ('Q', chars), **{})
        w.update (want ('OEM_2', [c if k % 2 else None for k, c in enumerate (chars)]))
        w.update (want ('5', chars[:-1]))
        check (header + LAYOUT + body + FOOTER, w, rec, f'shift states {states}')

SUITES = [States (), Chars (), Keys (), Orders (), Sections (), Distinct ()]
