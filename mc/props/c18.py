""" C18: exported keyboard definitions """
import collections, itertools, os, unicodedata, datetime
import yaml
from .. import kit, ref, core, refexport as X
from ..core import Suite, Violation, need, same, words
from lulua import render as R, layout as L, keyboard as K

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of layouts (strings of every kind at every position and layer, modifier structures, empty positions); each is exported by the real command and the file is interpreted by independent implementations of the target platforms; the resulting key by key behaviour is compared with the layout'
RULE = 'states are (format, layout); transitions are the keys and layers compared'
ASSUMPTIONS = ['platform key codes and semantics (XKB columns as used by xmodmap, Keyman rules, keylayout DTD, XML 1.1, AnySoftKeyboard codes) as documented by the platforms',
        'only layouts a format can express: at most four layers; single characters (of the control characters tab, line feed and backspace) and single-key modifiers for xmodmap; no control characters for XML 1.0 and for Klavaro']

def write (d, layers):
    with open (os.path.join (d, 'layout.yaml'), 'w') as fd:
        yaml.dump (dict (name='test', layout=[dict (modifier=[list (m) for m in ms], layer=dict (l)) for ms, l in layers]), fd)
    return os.path.join (d, 'layout.yaml')

def export (fmt, layout, d, keyboard=None):
    """ run the command """
    out = os.path.join (d, 'out')
    if os.path.exists (out):
        os.unlink (out)
    r = core.cli (R.render, (['-k', keyboard] if keyboard else []) + ['-l', layout, fmt, out])
    need (r.ret in (None, 0), f'{fmt}: exit status {r.ret}: {r.err[-300:]}')
    with open (out, 'rb') as fd:
        return fd.read ()

def modsOf (layers):
    """ button -> layer, single-key modifiers """
    return {next (iter (m)): i for i, (ms, _) in enumerate (layers) for m in map (frozenset, ms) if len (m) == 1}

def checkXmodmap (layers, data, rec, what):
    keys, mods = X.xmodmap (data.decode ('utf-8'))
    isMod = modsOf (layers)
    BYCODE = collections.defaultdict (list)
    for b, c in X.XORG.items ():
        BYCODE[c].append (b)
    for code, btns in sorted (BYCODE.items ()):
        cols = keys.get (code, [])
        m = [isMod[b] for b in btns if b in isMod]
        if m:
            first = cols[0] if cols else None
            need (isinstance (first, tuple) and X.XMOD.get (first[1]) == m[0], f'{what}: {btns} should be a modifier of layer {m[0]+1}, but is {cols}')
            continue
        need (not any (isinstance (c, tuple) for c in cols), f'{what}: {btns} is a modifier: {cols}')
        for i in range (8):
            lay = X.XCOLUMN.index (i) if i in X.XCOLUMN else None
            want = None
            if lay is not None and lay < len (layers):
                want = next ((layers[lay][1][b] for b in btns if b in layers[lay][1]), None)
            got = cols[i] if i < len (cols) else None
            same (got, want, f'{what}: key {code} ({btns}) column {i} (layer {lay})')
            rec.step ()
    need (set (keys) <= set (BYCODE), f'{what}: unknown key codes {set (keys)-set (BYCODE)}')
    need ('ISO_Level3_Shift' in mods['Mod5'], f'{what}: Mod5 is {mods["Mod5"]}')
    for m in ('Lock', 'Mod2'):
        need (not mods[m], f'{what}: {m} still has {mods[m]}')

def checkKeyman (layers, data, rec, what):
    rules, stores = X.keyman (data.decode ('utf-8'))
    code = X.KEYMAN
    want = {}
    for ms, l in layers:
        for m in ms:
            for b, s in l.items ():
                want[(frozenset (code[x] for x in m), code[b])] = s
    same (rules, want, f'{what}: rules')
    same (stores.get ('mnemoniclayout'), '0', f'{what}: positional')
    need (stores.get ('begin'), f'{what}: no begin statement')
    rec.step (len (want))

def checkKeylayout (layers, data, rec, what):
    maps, select, default = X.keylayout (data)
    for i, (ms, l) in enumerate (layers):
        got = maps.get (i)
        need (got is not None, f'{what}: no map for layer {i}')
        want = {}
        btns, codes = X.MACOS_EITHER
        for b, s in l.items ():
            if b in X.MACOS:
                want[X.MACOS[b]] = s
        same ({c: s for c, s in got.items () if c not in codes}, want, f'{what}: layer {i}')
        same (sorted (s for c, s in got.items () if c in codes), sorted (s for b, s in l.items () if b in btns), f'{what}: layer {i}, keys {sorted (btns)}')
        rec.step (len (want))
    same (sorted (maps), list (range (len (layers))), f'{what}: maps')
    same (default, 0, f'{what}: default map')
    sel = {i: [{k for k in ks if not k.endswith ('?')} for ks in v] for i, v in select.items ()}
    same (sel, {0: [set ()], 1: [{'anyShift'}], 2: [{'caps'}], 3: [{'anyOption'}]}, f'{what}: modifiers')

NFC = lambda s: unicodedata.normalize ('NFC', s)

def checkAsk (layers, data, rec, what):
    rows = X.ask (data)
    isMod = modsOf (layers)
    want = [[b for b in r if b not in isMod] for r in X.LETTERS[:-1]]
    want = [r for r in want if r]
    same (len (rows), len (want)+1, f'{what}: number of rows')
    for i, (r, (attrib, got)) in enumerate (zip (want, rows)):
        same (len (got), len (r), f'{what}: keys in row {i}')
        w = float (attrib[X.A + 'keyWidth'].replace ('%p', ''))
        need (abs (w*len (r)-100) < 0.2, f'{what}: row {i} with {len (r)} keys of width {w}')
        same (attrib.get (X.A + 'rowEdgeFlags'), 'top' if i == 0 else None, f'{what}: edge of row {i}')
        for b, k in zip (r, got):
            t = [NFC (l[b]) if b in l else '' for _, l in layers]
            same (k['codes'], [ord (c) for c in t[0]], f'{what}: codes of {b}')
            same (k['label'], t[0], f'{what}: label of {b}')
            same (k['popup'], ''.join (t[1:]), f'{what}: popup of {b}')
            need (''.join (t[1:]).startswith (k['hint']), f'{what}: hint {k["hint"]!r} of {b}')
            rec.step ()
    attrib, bottom = rows[-1]
    same (attrib.get (X.A + 'rowEdgeFlags'), 'bottom', f'{what}: edge of the bottom row')
    codes = [k['codes'] for k in bottom]
    same (sorted (codes), [[-5], [10], [32]], f'{what}: bottom row')
    need (abs (sum (float (k['attrib'][X.A + 'keyWidth'].replace ('%p', '')) for k in bottom)-100) < 0.2, f'{what}: width of the bottom row')
    same ([k['attrib'].get (X.A + 'isRepeatable') for k in bottom if k['codes'] == [-5]], ['true'], f'{what}: backspace repeats')

def checkKlavaro (layers, data, rec, what):
    rows = [r for r in X.LETTERS if r]
    got = X.klavaro (data.decode ('utf-8'), rows)
    for i in (0, 1):
        for r, line in zip (rows, got[i]):
            want = ''.join (NFC (layers[i][1][b]) if layers[i][1].get (b) else ' ' for b in r)
            same (line, want, f'{what}: layer {i}, row {r}')
            rec.step (len (r))

CHECK = dict (xmodmap=checkXmodmap, keyman=checkKeyman, keylayout=checkKeylayout, ask=checkAsk, klavaro=checkKlavaro)
CTRL = lambda s: any (unicodedata.category (c) == 'Cc' for c in s)
# X11 has no Unicode key symbols for control characters, only these named ones
XSTR = lambda s: s in '\t\n\b' or not CTRL (s)
XMLBAD = lambda s: any (c in '\ufffe\uffff' or ord (c) & 0xfffe == 0xfffe for c in s)

def expressible (fmt, layers):
    texts = [(i, b, s) for i, (_, l) in enumerate (layers) for b, s in l.items ()]
    spaceDiffers = any ('Fl_space' in l and 'Fr_space' in l and l['Fl_space'] != l['Fr_space'] for _, l in layers)
    isMod = modsOf (layers)
    if not 0 < len (layers) <= (4 if fmt in ('xmodmap', 'keylayout') else 99):
        return False
    if any (b in isMod for _, b, _ in texts):
        return False
    if fmt == 'xmodmap':
        return all (len (s) == 1 and XSTR (s) for _, _, s in texts) and all (len (m) <= 1 for ms, _ in layers for m in ms) and not any (m == [] for ms, _ in layers[1:] for m in ms)
    if fmt == 'ask':
        return all (not (c < ' ' and c not in '\t\n') and not '\x7f' <= c <= '\x9f' for _, b, s in texts for c in s if '_' not in b) and not any (XMLBAD (s) for _, _, s in texts)
    if fmt == 'keylayout':
        return all (b in X.MACOS or b in X.MACOS_EITHER[0] for _, b, s in texts) and not any (XMLBAD (s) or '\0' in s for _, _, s in texts) and not spaceDiffers
    if fmt == 'klavaro':
        return len (layers) >= 2 and all (len (NFC (s)) == 1 and not CTRL (s) and s not in '\u2028\u2029' for i, b, s in texts if i < 2 and '_' not in b)
    if fmt == 'keyman':
        # one name for both shift keys
        shift = [{('El_shift' in m or 'Er_shift' in m) and frozenset (x.replace ('Er_', 'El_') for x in m) for m in ms} - {False} for ms, _ in layers]
        return not spaceDiffers and not any (a & b for a, b in itertools.combinations (shift, 2))
    return True

def run (layers, rec, what, d=None, formats=CHECK, path=None, keyboard=None):
    layers = [([tuple (m) for m in ms], l) for ms, l in layers]
    path = path or write (d, layers)
    for fmt in formats:
        if not expressible (fmt, [([list (m) for m in ms], l) for ms, l in layers]):
            continue
        data = export (fmt, path, d, keyboard)
        try:
            CHECK[fmt] (layers, data, rec, f'{fmt} {what}')
        except (X.Malformed, UnicodeDecodeError) as e:
            raise Violation (f'{fmt} {what}: malformed output: {e}')
        rec.trace ()
        rec.state ((fmt, what))
        rec.extra[fmt] += 1

class Shipped (Suite):
    name = 'shipped-layouts'
    bounds = 'all shipped layouts in all formats which can express them'
    def cases (self, tier):
        yield from kit.layoutNames ()

    def check (self, case, rec):
        data = kit.dataFile ('layouts', case)
        with core.Scratch () as d:
            run ([(l['modifier'], l['layer']) for l in data['layout']], rec, case, d, path=case)

STD = [[[]], [['El_shift'], ['Er_shift']], [['Dl_caps'], ['Dr1']], [['El1'], ['Fr_altgr']]]
STRINGS = ['a', '\u0628', '\u0627\u0653', '\u0644\u0627', '\t', '\n', '\b', ' ', '\x1b', '"', "'", '<', '&', '\U0001f600', '\u200d', '\u00a0', '\u064b', '>', ']', '\\', ';', '#', '%', '\u2028', '\x85', '\x7f', '\u0001', '\ufdf2', ',', 'e\u0301', '\U0010ffff'[:0] or 'z', '!', '-', '0', '\u0628\u064e\u0651', '\u0627\u0644\u0644\u0647\u0640', None]

class Sweep (Suite):
    name = 'strings-at-every-position'
    bounds = '36 kinds of strings (letters, marks, composed and uncomposable sequences, control and format characters, markup, quotes, astral) and nothing at every letter key, space and tab, backspace and return in each of 4 layers: all cyclic assignments with 3 strides; per format restricted to strings it can express'
    def cases (self, tier):
        for k in range (len (STRINGS)):
            for stride in (1, 2) if tier == 'quick' else (1, 2, 3, 5, 7):
                for n in (1, 2, 3, 4):
                    yield (k, stride, n)

    def check (self, case, rec):
        k, stride, n = case
        with core.Scratch () as d:
            for fmt in CHECK:
                strs = STRINGS
                if fmt == 'xmodmap':
                    strs = [s for s in STRINGS if s is None or len (s) == 1 and XSTR (s)]
                elif fmt == 'klavaro':
                    strs = [s for s in STRINGS if s is None or len (NFC (s)) == 1 and not CTRL (s) and s != '\u2028']
                elif fmt == 'ask':
                    strs = [s for s in STRINGS if s is None or not any (c < ' ' and c not in '\t\n' or '\x7f' <= c <= '\x9f' for c in s)]
                buttons = [b for r in X.LETTERS for b in r] + ['Fl_space', 'Cl_tab', 'CD_ret', 'Br_bs']
                buttons = [b for b in buttons if b not in ('Dr1', 'El1')]
                layers = []
                for i in range (n):
                    lay = {b: strs[(k + stride*j + 11*i) % len (strs)] for j, b in enumerate (buttons)}
                    layers.append ((STD[i], {b: s for b, s in lay.items () if s is not None}))
                run (layers, rec, f'{case}', d, [fmt])

class Small (Suite):
    name = 'small-layouts'
    bounds = 'all assignments of nothing, a letter, another letter to 3 keys (a letter key, the two halves of the space bar) in 2 layers, to 2 letter keys in 3 layers'
    def cases (self, tier):
        for v in itertools.product ((None, 'x', 'y'), repeat=6):
            yield (2, v)
        for v in itertools.product ((None, 'x', 'y'), repeat=6):
            yield (3, v)

    def check (self, case, rec):
        n, v = case
        btns = ('Dl3', 'Fl_space', 'Fr_space') if n == 2 else ('Er1', 'Bl1')
        k = len (btns)
        layers = [(STD[i], {b: s for b, s in zip (btns, v[k*i:k*i+k]) if s is not None}) for i in range (n)]
        if any (l.get ('Fl_space') and l.get ('Fr_space') and l['Fl_space'] != l['Fr_space'] for _, l in layers):
            return
        with core.Scratch () as d:
            run (layers, rec, f'{layers}', d)

class Modifiers (Suite):
    name = 'modifiers'
    bounds = 'all assignments of 10 possible modifier keys (special and letter keys) to layers 2 to 4 with one or two modifiers each; Keyman also with two-key modifiers'
    KEYS = ('El_shift', 'Er_shift', 'Dl_caps', 'Dr1', 'El1', 'Fr_altgr', 'Fl_ctrl', 'Bl1', 'Er1', 'Cl_tab')
    def cases (self, tier):
        n = 6 if tier == 'quick' else len (self.KEYS)
        for a in self.KEYS:
            yield ((a, ), )
        for a in itertools.permutations (self.KEYS[:n], 3):
            yield tuple ((x, ) for x in a)
        for a in itertools.permutations (self.KEYS, 2):
            yield (a, )
        for a in itertools.combinations (self.KEYS, 4):
            yield (a[:2], a[2:])
            yield ((a[3], a[0]), (a[1], ), (a[2], ))

    def check (self, case, rec):
        flat = {b for m in case for b in m}
        layers = [([[]], {'Dl1': 'a', 'Dr2': 'b', 'Fl_space': ' ', 'CD_ret': '\n'})]
        for i, ms in enumerate (case):
            layers.append (([[m] for m in ms], {'Dl1': chr (0x41+i), 'Cr1': chr (0x61+i)}))
        with core.Scratch () as d:
            run (layers, rec, f'{case}', d, ['xmodmap', 'ask', 'keyman'])
            if len (case) == 1 and len (case[0]) == 2:
                layers = [layers[0], ([list (case[0])], {'Dl1': 'A'})]
                run (layers, rec, f'both of {case}', d, ['keyman', 'ask'])

class ManyLayers (Suite):
    name = 'many-layers'
    bounds = 'layouts with 3 to 8 layers selected by different single and two-key modifiers: all assignments of a text or nothing to a key in every layer, another key the other way round (formats without a limit of layers)'
    MODS = [[[]], [['El_shift'], ['Er_shift']], [['Dl_caps']], [['Fr_altgr']], [['El_shift', 'Fr_altgr']], [['Fl_ctrl']], [['Dl_caps', 'Fr_altgr'], ['Dl_caps', 'Fl_ctrl']], [['El_shift', 'Dl_caps']]]
    def cases (self, tier):
        for n in range (3, len (self.MODS)+1):
            for start in range (0, 1 << n, 8):
                yield n, start

    def check (self, case, rec):
        n, start = case
        with core.Scratch () as d:
            for bits in range (start, start+8):
                layers = [(self.MODS[i], {b: chr (0x628+i+20*j) for j, b in enumerate (('Dl3', 'Er2')) if (bits >> i & 1) != j}) for i in range (n)]
                run (layers, rec, f'{layers}', d, ['ask', 'keyman', 'klavaro', 'keylayout'])
                rec.state ((n, bits))

class Unicode (Suite):
    name = 'all-characters'
    bounds = 'every assigned Unicode character up to U+FFFF (thorough: every code point which is not a surrogate) as the text of some key: about 220 characters per layout'
    def cases (self, tier):
        todo = [c for c in range (1, 0x10000 if tier == 'quick' else 0x110000) if not 0xd800 <= c < 0xe000 and not X.PLACEHOLDER <= c < X.PLACEHOLDER+32
                and (tier != 'quick' or unicodedata.category (chr (c)) not in ('Cn', 'Co') and not 0x3400 <= c < 0xa000 and not 0xac00 <= c < 0xd7a4)]
        btns = [b for r in X.LETTERS for b in r if b not in ('Dr1', 'El1')]
        step = 4*len (btns)
        for i in range (0, len (todo), step):
            yield todo[i], todo[min (i+step, len (todo))-1]

    def check (self, case, rec):
        a, b = case
        quick = b < 0x10000
        cs = [chr (c) for c in range (a, b+1) if not 0xd800 <= c < 0xe000 and not X.PLACEHOLDER <= c < X.PLACEHOLDER+32]
        btns = [b for r in X.LETTERS for b in r if b not in ('Dr1', 'El1')]
        with core.Scratch () as d:
            for fmt in CHECK:
                ok = [c for c in cs if expressible (fmt, [([[]], {'Dl1': c}), ([['El_shift']], {})])]
                n = len (btns)*(2 if fmt == 'klavaro' else 4)
                for i in range (0, min (len (ok), 4*len (btns)), n):
                    part = ok[i:i+n]
                    layers = [(STD[k], dict (zip (btns, part[k*len (btns):(k+1)*len (btns)]))) for k in range (4)]
                    run (layers, rec, f'characters U+{a:04X} to U+{b:04X} part {i}', d, [fmt])

class Codes (Suite):
    name = 'key-codes'
    bounds = 'all buttons of the shipped keyboard on all four platforms'
    def cases (self, tier):
        yield from ('xorg', 'windows', 'macos', 'keyman')

    def check (self, case, rec):
        seen = collections.defaultdict (list)
        kbd = K.defaultKeyboards['ibmpc105']
        table = dict (xorg=X.XORG, windows=X.WINDOWS, macos=X.MACOS, keyman=X.KEYMAN).get (case, {})
        for b in kbd.keys ():
            c = (b.scancode or {}).get (case)
            if c is not None:
                seen[c].append (b.name)
            if b.name in table:
                same (c, table[b.name], f'{case} code of {b.name}')
            rec.step ()
        for c, names in seen.items ():
            if len (names) > 1:
                need (set (names) == {'Fl_space', 'Fr_space'} or case == 'keyman' and set (names) == {'El_shift', 'Er_shift'}, f'{case}: {names} share the code {c}')
            rec.state ((case, c))
        if case == 'macos':
            same ({kbd[b].scancode['macos'] for b in X.MACOS_EITHER[0]}, X.MACOS_EITHER[1], 'macos: keys next to the shift key and below escape')
        rec.trace ()

class Keyboards (Suite):
    name = 'other-keyboards'
    bounds = 'keyboards other than the shipped one (option -k): all rotations of the platform codes of the 49 letter keys, and all keyboards without one of the letter keys or one of the letter rows (except the first), and all groupings of the halves of the rows into 1 to 8 rows; four layers with a different character everywhere; all formats'
    def cases (self, tier):
        n = sum (map (len, X.LETTERS))
        for i in range (1, n):
            yield ('rotate', i)
        for r in X.LETTERS:
            for b in r:
                yield ('without', (b, ))
        for r in X.LETTERS[1:-1]:
            yield ('without', tuple (r))
        for mask in range (1, 128):
            yield ('regroup', mask)

    def check (self, case, rec):
        kind, arg = case
        data = kit.dataFile ('keyboards', 'ibmpc105')
        btns = [b for r in X.LETTERS for b in r]
        saved = {k: getattr (X, k) for k in ('XORG', 'MACOS', 'KEYMAN', 'LETTERS', 'MACOS_EITHER')}
        flat = {b['name']: b for row in data['rows'] for s in row for b in s}
        try:
            X.MACOS_EITHER = set (), set ()
            X.XORG, X.MACOS, X.KEYMAN = ({n: b['scancode'][k] for n, b in flat.items () if k in b['scancode']} for k in ('xorg', 'macos', 'keyman'))
            if kind == 'rotate':
                code = [dict (flat[b]['scancode']) for b in btns]
                for i, b in enumerate (btns):
                    flat[b]['scancode'] = code[(i+arg) % len (btns)]
                for t, k in ((X.XORG, 'xorg'), (X.MACOS, 'macos'), (X.KEYMAN, 'keyman')):
                    for b in btns:
                        t.pop (b, None)
                        if k in flat[b]['scancode']:
                            t[b] = flat[b]['scancode'][k]
            elif kind == 'regroup':
                halves = [s for row in data['rows'][:-1] for s in row]
                rows = [list (halves[0])]
                for i, h in enumerate (halves[1:]):
                    if arg >> i & 1:
                        rows.append ([])
                    rows[-1].extend (h)
                data['rows'][:-1] = [[r, []] for r in rows]
                X.LETTERS = [[b['name'] for b in r if b.get ('kind') == 'letter'] for r in rows] + [[]]
            else:
                for row in data['rows']:
                    for s in row:
                        s[:] = [b for b in s if b['name'] not in arg]
                X.LETTERS = [[b for b in r if b not in arg] for r in X.LETTERS]
                for t in (X.XORG, X.MACOS, X.KEYMAN):
                    for b in arg:
                        t.pop (b, None)
            data['name'] = 'other'
            with core.Scratch () as d:
                kbd = os.path.join (d, 'kbd.yaml')
                with open (kbd, 'w') as fd:
                    yaml.dump (data, fd)
                keys = [b for r in X.LETTERS for b in r if b not in ('Dr1', 'El1')]
                mods = [[m for m in ms if not set (m) & set (arg if kind == 'without' else ())] for ms in STD]
                layers = [(mods[i], {b: chr (0x4e00+100*i+j) for j, b in enumerate (keys)}) for i in range (4)]
                run (layers, rec, f'{case}', d, keyboard=kbd)
        finally:
            for k, v in saved.items ():
                setattr (X, k, v)

SUITES = [Keyboards (), Shipped (), Sweep (), Small (), Modifiers (), ManyLayers (), Unicode (), Codes ()]
