""" C16: lookup and serialisation of layouts and keyboards """
import collections, copy, itertools, pickle
import yaml
from .. import kit, ref, core
from ..core import Suite, Violation, need, same, words
from lulua import layout as L, keyboard as K

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small layouts (assignments of strings to positions, modifier sets) and keyboards and of operation histories (serialise, deserialise, adapt, copy, change) over them; all lookups compared with a plain-data model, all objects and data compared with snapshots after every operation'
RULE = 'states are the enumerated layouts/keyboards and history states; transitions are lookups and operations compared'

def norm (layers):
    return [([frozenset (m) for m in ms], dict (l)) for ms, l in layers]

def plain (lay):
    """ real adapted or generic layout -> plain data """
    n = lambda x: x if isinstance (x, str) else x.name
    return [([frozenset (n (b) for b in m) for m in l.modifier], {n (b): t for b, t in l.layout.items ()}) for l in lay.layers]

def checkLookup (lay, layers, kbd, rec, what, mods=()):
    """ all queries on an adapted layout against plain data """
    layers = norm (layers)
    same (plain (lay), layers, f'{what}: layers')
    r = ref.Layout (layers)
    buttons = [b.name for b in kbd.keys ()]
    used = sorted ({b for _, l in layers for b in l} | {'Dl1', 'Fl_space'})
    where = {m: i for i, (ms, _) in enumerate (layers) for m in ms}
    sets = set (where) | {frozenset (m) for m in mods}
    for m in sets:
        rm = frozenset (kbd[x] for x in m)
        same (lay.isModifier (rm), m in where, f'{what}: is {sorted (m)} a modifier')
        if m in where:
            i, l = lay.modifierToLayer (rm)
            same (i, where[m], f'{what}: layer of {sorted (m)}')
            same ({b.name: t for b, t in l.layout.items ()}, layers[i][1], f'{what}: layer data of {sorted (m)}')
        else:
            try:
                lay.modifierToLayer (rm)
                raise Violation (f'{what}: {sorted (m)} selects a layer, but is no modifier')
            except KeyError:
                pass
        for b in used:
            comb = L.ButtonCombination (rm, frozenset ([kbd[b]]))
            try:
                got = lay.getText (comb)
            except KeyError:
                got = None
            same (got, r.text.get ((m, b)), f'{what}: text of {sorted (m)}+{b}')
            rec.step ()
    for b in used:
        same (list (lay.getButtonText (kbd[b])), [l.get (b) for _, l in layers], f'{what}: texts of button {b}')
    listed = {}
    for s, cs in lay:
        need (s not in listed, f'{what}: string {s!r} listed twice')
        listed[s] = collections.Counter (map (kit.combName, cs))
    want = {s: collections.Counter (cs) for s, cs in r.strings.items ()}
    same (listed, want, f'{what}: strings and combinations')
    for s in want:
        m, cs = lay (s)
        same ((m, collections.Counter (map (kit.combName, cs))), (s, want[s]), f'{what}: looking up {s!r}')
        # longest prefix
        for suffix in ('', 'q', 'ab'):
            text = s + suffix
            best = max ((x for x in want if text.startswith (x)), key=len)
            m, cs = lay (text)
            same ((m, collections.Counter (map (kit.combName, cs))), (best, want[best]), f'{what}: looking up {text!r}')
        rec.step ()
    for text in ('', '\u4444', 'zz'):
        if not any (text.startswith (x) for x in want):
            try:
                lay (text)
                raise Violation (f'{what}: {text!r} found')
            except KeyError:
                pass

def data (layers, name='test'):
    return dict (name=name, layout=[dict (modifier=[list (m) for m in ms], layer=dict (l)) for ms, l in layers])

MODS = [([[]], [['El_shift']]), ([[]], [['El_shift'], ['Er_shift']]), ([['Fr_altgr']], [[], ['El_shift', 'Fr_altgr']]),
        ([[]], [['Dl_caps'], ['Dr1']], [['El1'], ['Fr_altgr'], ['Dl_caps', 'El1']]), ([[], ['Fl_ctrl']], [['El_shift', 'Fl_ctrl', 'Fr_altgr']], [['El_shift', 'Fl_ctrl']])]
PROBE = [(), ('El_shift', ), ('Er_shift', ), ('El_shift', 'Er_shift'), ('Fr_altgr', ), ('El_shift', 'Fr_altgr'), ('Dl_caps', ), ('Dr1', ), ('Dl1', ),
        ('El1', 'Dl_caps'), ('Fl_ctrl', ), ('Fl_ctrl', 'El_shift'), ('Fl_ctrl', 'El_shift', 'Fr_altgr')]

class Layouts (Suite):
    name = 'layouts'
    bounds = 'five modifier structures of 2 or 3 layers (several modifiers per layer, two- and three-key modifiers, letter keys), all assignments of 5 strings (a, b, ab, abc, a mark) or nothing to 2 buttons per layer; all lookups for 13 modifier sets'
    STR = (None, 'a', 'b', 'ab', 'abc', '\u064b')
    def cases (self, tier):
        for mi, ms in enumerate (MODS):
            if len (ms) == 2:
                for pre in itertools.product (self.STR, repeat=1):
                    yield (mi, pre)
            else:
                for pre in itertools.product (self.STR[:4] if tier == 'quick' else self.STR, repeat=2):
                    yield (mi, pre)

    def check (self, case, rec):
        mi, pre = case
        ms = MODS[mi]
        n = 2*len (ms)-len (pre)
        strs = self.STR if len (ms) == 2 else self.STR[:4]
        kbd = kit.keyboard ()
        for rest in itertools.product (strs, repeat=n):
            v = tuple (pre) + rest
            layers = []
            for i, m in enumerate (ms):
                layers.append ((m, {b: s for b, s in zip (('Dl2', 'Fl_space'), v[2*i:2*i+2]) if s is not None}))
            d = data (layers)
            snap = copy.deepcopy (d)
            g = L.GenericLayout.deserialize (d)
            lay = g.specialize (kbd)
            what = f'{layers}'
            checkLookup (lay, layers, kbd, rec, what, PROBE)
            same (d, snap, f'{what}: input data')
            same (len (g), sum (len (l) for _, l in layers), f'{what}: number of positions')
            same (collections.Counter (g.buttons ()), collections.Counter (x for _, l in layers for x in l.items ()), f'{what}: buttons')
            same (lay.name, 'test', 'name')
            rec.state (what)
            rec.trace ()

class ManyLayers (Suite):
    name = 'many-layers'
    bounds = 'layouts with 0 to 12 layers (1 to 4 modifier sets each, some layers empty): lookups, serialisation, and copies, pickled copies and round trips which are changed in every layer in turn; all other objects stay as they are'
    KEYS = ['El_shift', 'Er_shift', 'Fr_altgr', 'Dl_caps', 'Dr1', 'El1', 'Fl_ctrl', 'Fr_ctrl', 'Fl_alt', 'Fl_win', 'Fr_win', 'Fr_menu']
    def cases (self, tier):
        for n in range (13):
            for per in range (1, 5):
                for empty in (False, True):
                    yield (n, per, empty)

    def check (self, case, rec):
        n, per, empty = case
        sets = [(), *((x, ) for x in self.KEYS), *itertools.combinations (self.KEYS, 2)]
        layers = []
        for i in range (n):
            mods, sets = sets[:per], sets[per:]
            # same text in several layers
            lay = {} if empty and i % 2 else {'Dl2': f'{i}', 'Fl_space': ' ' if i % 3 else f' {i}', f'Cl{i % 5+1}': 'abc'[:i % 3+1]}
            layers.append (([list (m) for m in mods], lay))
        kbd = kit.keyboard ()
        d = data (layers)
        snap = copy.deepcopy (d)
        g = L.GenericLayout.deserialize (d)
        lay = g.specialize (kbd)
        checkLookup (lay, layers, kbd, rec, f'{case}', PROBE)
        ser = g.serialize ()
        objs = dict (original=lay, copy=lay.copy (), pickled=pickle.loads (pickle.dumps (lay)), again=L.GenericLayout.deserialize (ser).specialize (kbd), reloaded=L.GenericLayout.deserialize (yaml.safe_load (yaml.safe_dump (ser))).specialize (kbd), second=g.specialize (kbd))
        objs['copycopy'] = objs['copy'].copy ()
        want = {k: copy.deepcopy (norm (layers)) for k in objs}
        for k, o in objs.items ():
            need (o == lay, f'{case}: {k} is not equal')
            if k != 'original':
                checkLookup (o, layers, kbd, rec, f'{case}: {k}', PROBE)
        for k, o in objs.items ():
            for i in range (n):
                o.layers[i].layout[kbd['Dl2']] = f'x{k}'
                want[k][i][1]['Dl2'] = f'x{k}'
                o.layers[i].layout[kbd['Er3']] = f'y{k}'
                want[k][i][1]['Er3'] = f'y{k}'
                o.layers[i].modifier.append (frozenset ([kbd['Br1']]))
                want[k][i][0].append (frozenset (['Br1']))
                for k2, o2 in objs.items ():
                    same (plain (o2), want[k2], f'{case}: {k2} after changing layer {i} of {k}')
                    rec.step ()
        same (plain (g), norm (layers), f'{case}: generic layout')
        same (d, snap, f'{case}: data')
        rec.state (case)
        rec.trace ()

class Shipped (Suite):
    name = 'shipped-layouts'
    bounds = 'all shipped layouts: all lookups; serialisation; copies; pickling; all modifier sets of up to 2 of the modifier buttons'
    def cases (self, tier):
        yield from kit.layoutNames (null=True)

    def check (self, case, rec):
        d = kit.dataFile ('layouts', case)
        layers = [(l['modifier'], l['layer']) for l in d['layout']]
        kbd = kit.keyboard ()
        g = L.defaultLayouts[case]
        same (g.name, d['name'], 'name')
        lay = g.specialize (kbd)
        mods = [(), *itertools.combinations (['El_shift', 'Er_shift', 'Fr_altgr', 'Dl_caps', 'Dr1', 'El1', 'Fl_ctrl'], 1),
            *itertools.combinations (['El_shift', 'Er_shift', 'Fr_altgr', 'Dl_caps', 'Dr1', 'El1', 'Fl_ctrl'], 2)]
        checkLookup (lay, layers, kbd, rec, case, mods)
        out = g.serialize ()
        same (plain (L.GenericLayout.deserialize (yaml.safe_load (yaml.dump (out)))), norm (layers), f'{case}: after a round trip')
        c = lay.copy ()
        need (c == lay, f'{case}: copy is not equal')
        checkLookup (c, layers, kbd, rec, f'copy of {case}', mods)
        p = pickle.loads (pickle.dumps (lay))
        need (p == lay, f'{case}: pickled layout is not equal')
        checkLookup (p, layers, kbd, rec, f'pickled {case}', mods)
        checkLookup (lay, layers, kbd, rec, case, mods)
        for other in kit.layoutNames (null=True):
            o = L.defaultLayouts[other]
            same (o == g, norm ([(l['modifier'], l['layer']) for l in kit.dataFile ('layouts', other)['layout']]) == norm (layers), f'{case} equals {other}')
        rec.state (case)
        rec.trace ()

class History (Suite):
    name = 'layout-histories'
    bounds = 'all histories of 5 (thorough 6) operations on data, generic layout, adapted layout and copies: deserialise, serialise, adapt, copy, copy the copy, change a copy (text, new text, modifier), pickle; every object checked after every operation'
    OPS = ('deser', 'ser', 'spec', 'copy', 'copycopy', 'chtext', 'chnew', 'chmod', 'roundtrip', 'pickle')
    LAYERS = [([[]], {'Dl2': 'a', 'Fl_space': ' '}), ([['El_shift'], ['Er_shift', 'Fr_altgr']], {'Dl2': 'ab', 'Dl3': 'a'})]
    def cases (self, tier):
        n = 5 if tier == 'quick' else 6
        for pre in itertools.product (self.OPS, repeat=2):
            yield (n, pre)

    def check (self, case, rec):
        n, pre = case
        for rest in itertools.product (self.OPS, repeat=n-2):
            self.run (tuple (pre) + rest, rec)

    def run (self, hist, rec):
        kbd = kit.keyboard ()
        d = data (self.LAYERS)
        snap = copy.deepcopy (d)
        g = L.GenericLayout.deserialize (d)
        lay = g.specialize (kbd)
        # copies and what they should contain
        copies = []
        sers = []
        base = norm (self.LAYERS)
        for op in hist:
            if op == 'deser':
                g = L.GenericLayout.deserialize (d)
            elif op == 'ser':
                sers.append (g.serialize ())
            elif op == 'spec':
                lay = g.specialize (kbd)
            elif op == 'copy':
                copies.append ((lay.copy (), copy.deepcopy (base)))
            elif op == 'copycopy' and copies:
                c, want = copies[-1]
                copies.append ((c.copy (), copy.deepcopy (want)))
            elif op == 'chtext' and copies:
                c, want = copies[-1]
                c.layers[0].layout[kbd['Dl2']] = 'x'
                want[0][1]['Dl2'] = 'x'
            elif op == 'chnew' and copies:
                c, want = copies[-1]
                c.layers[1].layout[kbd['Dl4']] = 'y'
                want[1][1]['Dl4'] = 'y'
            elif op == 'chmod' and copies:
                c, want = copies[-1]
                c.layers[1].modifier.append (frozenset ([kbd['Fl_ctrl']]))
                want[1][0].append (frozenset (['Fl_ctrl']))
            elif op == 'roundtrip':
                d2 = copy.deepcopy (g.serialize ())
                g = L.GenericLayout.deserialize (d2)
            elif op == 'pickle':
                lay = pickle.loads (pickle.dumps (lay))
            rec.step ()
        what = ' '.join (hist)
        same (plain (g), base, f'{what}: generic layout')
        same (plain (lay), base, f'{what}: layout')
        same ({s: sorted ((sorted (m), b) for m, b in map (kit.combName, cs)) for s, cs in lay}, {s: sorted ((sorted (m), b) for m, b in cs) for s, cs in ref.Layout (base).strings.items ()}, f'{what}: combinations')
        same (d, snap, f'{what}: data')
        for x in sers:
            same ([(list (map (frozenset, l['modifier'])), l['layer']) for l in x['layout']], base, f'{what}: serialised data')
            need (all (isinstance (m, list) and all (isinstance (y, str) for y in m) for l in x['layout'] for m in l['modifier']), 'serialised data is not plain')
        for i, (c, want) in enumerate (copies):
            same (plain (c), want, f'{what}: copy {i}')
            same (c == lay, want == base, f'{what}: copy {i} equals the original')
            need (lay.keyboard == c.keyboard or [b.name for b in c.keyboard.keys ()] == [b.name for b in lay.keyboard.keys ()], 'keyboard of the copy')
        rec.trace ()
        rec.state (repr ([w for _, w in copies]))

# ---------------------------------------------------------------- keyboards

SCAN = [None, {}, {'xorg': 10}, {'windows': [42]}, {'windows': [224, 29], 'xorg': 5, 'macos': 0, 'keyman': 'K_A'}]
def buttons ():
    for kind in ('standard', 'letter', 'multi'):
        for width in (1, 1.5):
            for mark in (None, False, True):
                for scan in range (len (SCAN)):
                    d = dict (name='X', width=width)
                    if kind != 'standard':
                        d['kind'] = kind
                    if kind == 'multi':
                        d['span'] = 2
                    if mark is not None:
                        d['isMarked'] = mark
                    d['scancode'] = copy.deepcopy (SCAN[scan])
                    yield d

KIND = dict (standard=K.Button, letter=K.LetterButton, multi=K.MultiRowButton)
def checkButton (b, d, what):
    same (type (b), KIND[d.get ('kind', 'standard')], f'{what}: kind')
    same (b.name, d['name'], f'{what}: name')
    same (b.width, d.get ('width', 1), f'{what}: width')
    same (bool (b.isMarked), bool (d.get ('isMarked', False)), f'{what}: marked')
    if d.get ('kind') == 'multi':
        same (b.span, d['span'], f'{what}: span')
    scan = d.get ('scancode')
    got = b.scancode
    same (not got, not scan, f'{what}: scancode {got} {scan}')
    if scan:
        same ({k: tuple (v) if isinstance (v, (list, tuple)) else v for k, v in got.items ()}, {k: tuple (v) if isinstance (v, list) else v for k, v in scan.items ()}, f'{what}: scancode')

def plainButton (d):
    """ canonical form of serialised data """
    d = dict (d)
    d.setdefault ('kind', 'standard')
    d['isMarked'] = bool (d.get ('isMarked', False))
    d['width'] = d.get ('width', 1)
    d['scancode'] = d.get ('scancode') or None
    return d

class Buttons (Suite):
    name = 'buttons'
    bounds = 'every kind of button with every combination of width, mark and five scancode tables, every history of up to 5 (thorough 7) operations out of serialise, deserialise the original data, deserialise the serialised data, pickle, dump and load as YAML'
    OPS = ('ser', 'deser', 'reser', 'pickle', 'yaml')
    def cases (self, tier):
        n = 5 if tier == 'quick' else 7
        for i, d in enumerate (buttons ()):
            yield (n, i)

    def check (self, case, rec):
        n, i = case
        orig = list (buttons ())[i]
        for hist in words (self.OPS, n, n):
            d = copy.deepcopy (orig)
            b = K.Button.deserialize (d)
            objs = [b]
            sers = []
            for op in hist:
                if op == 'ser':
                    sers.append (objs[-1].serialize ())
                elif op == 'deser':
                    objs.append (K.Button.deserialize (d))
                elif op == 'reser' and sers:
                    objs.append (K.Button.deserialize (sers[-1]))
                elif op == 'pickle':
                    objs.append (pickle.loads (pickle.dumps (objs[-1])))
                elif op == 'yaml' and sers and len (hist) <= 5 and hist.count ('yaml') == 1:
                    objs.append (K.Button.deserialize (yaml.safe_load (yaml.safe_dump (sers[-1]))))
                rec.step ()
            what = f'{orig} after {hist}'
            same (d, orig, f'{what}: input data')
            for o in objs:
                checkButton (o, orig, what)
                need (o == b and hash (o) == hash (b), f'{what}: not equal')
            for s in sers:
                same (plainButton (s), plainButton (orig), f'{what}: serialised data')
            rec.trace ()
        rec.state (repr (orig))

class Widths (Suite):
    name = 'button-values'
    bounds = '24 widths (many digits, tiny, huge), 8 spans, 14 scancode tables (many codes, other platforms, large numbers, strings), 12 names: exact values after serialising, YAML, pickling, twice'
    WIDTHS = [0, 0.1, 0.25, 0.3, 1/3, 2/3, 0.5, 0.625, 0.75, 1, 1.0, 1.1, 1.125, 1.25, 1.3333, 1.4142135623, 2.0625, 2.75, 5.46875, 6.25, 7.0001, 10, 123.456, 1e6]
    SCANS = [{'windows': [1, 2, 3]}, {'windows': []}, {'windows': [255]}, {'windows': [0]}, {'windows': [0x1d]}, {'windows': [65535]}, {'xorg': 0}, {'xorg': 255}, {'xorg': 65536}, {'macos': 0}, {'macos': 127, 'other': 'x'}, {'windows': [1], 'x y': [1, 2]}, {'keyman': ''}, {'keyman': 'K_?C0'}]
    NAMES = ['A', 'Bl1', 'with space', '\u0639', '', '1', '_', 'a'*50, 'x-y', 'El_shift', '~', 'null']
    def cases (self, tier):
        for w in self.WIDTHS:
            for kind in ('standard', 'letter', 'multi'):
                yield dict (name='X', kind=kind, width=w)
        for s in range (1, 9):
            yield dict (name='X', kind='multi', span=s)
        for s in self.SCANS:
            yield dict (name='X', scancode=s)
        for n in self.NAMES:
            yield dict (name=n, kind='letter')

    def check (self, case, rec):
        orig = dict (case)
        if orig.get ('kind') == 'multi':
            orig.setdefault ('span', 2)
        orig.setdefault ('scancode', None)
        objs = [K.Button.deserialize (copy.deepcopy (orig))]
        for _ in range (3):
            s = objs[-1].serialize ()
            got, want = plainButton (s), plainButton (orig)
            same (got, want, f'{orig}: serialised')
            objs.append (K.Button.deserialize (copy.deepcopy (s)))
            objs.append (K.Button.deserialize (yaml.safe_load (yaml.safe_dump (s))))
            objs.append (pickle.loads (pickle.dumps (objs[-1])))
        for o in objs:
            checkButton (o, orig, f'{orig}')
            need (o == objs[0], f'{orig}: not equal')
            rec.step ()
        # within a keyboard
        d = dict (name='test', description='', rows=[[[copy.deepcopy (orig)], [dict (name='other')]]])
        k = K.PhysicalKeyboard.deserialize (d)
        k = K.PhysicalKeyboard.deserialize (yaml.safe_load (yaml.safe_dump (k.serialize ())))
        checkButton (k[orig['name']], orig, f'{orig} in a keyboard')
        rec.state (repr (orig))
        rec.trace ()

class Keyboards (Suite):
    name = 'keyboards'
    bounds = 'all keyboards with up to 3 rows of up to 2+2 buttons (every distribution), all queries, round trips; histories of serialising twice'
    def cases (self, tier):
        shapes = list (itertools.product (range (3), range (3)))
        for n in range (0, 4):
            yield from itertools.product (shapes, repeat=n)

    def check (self, case, rec):
        kinds = list (buttons ())
        rows = []
        k = 0
        for l, r in case:
            row = [[], []]
            for side, n in enumerate ((l, r)):
                for _ in range (n):
                    b = copy.deepcopy (kinds[(7*k + 3*len (case)) % len (kinds)])
                    b['name'] = f'K{k}'
                    row[side].append (b)
                    k += 1
            rows.append (row)
        d = dict (name='test', description='a test', rows=rows)
        checkKeyboard (d, rec, f'{case}')
        rec.state (case)

def checkKeyboard (d, rec, what):
    snap = copy.deepcopy (d)
    a = K.PhysicalKeyboard.deserialize (d)
    same (d, snap, f'{what}: data after deserialising')
    s1 = a.serialize ()
    b = K.PhysicalKeyboard.deserialize (s1)
    s2 = b.serialize ()
    c = K.PhysicalKeyboard.deserialize (yaml.safe_load (yaml.safe_dump (s1)))
    s3 = a.serialize ()
    p = pickle.loads (pickle.dumps (a))
    # the same data again, two independent objects
    e = K.PhysicalKeyboard.deserialize (d)
    same (d, snap, f'{what}: data')
    flat = [(i, side, x) for i, row in enumerate (d['rows']) for side, l in enumerate (row) for x in l]
    for k in (a, b, c, p, e):
        same ((k.name, k.description), (d['name'], d['description']), f'{what}: name')
        same (len (k), len (flat), f'{what}: number of buttons')
        same ([x.name for x in k.keys ()], [x['name'] for _, _, x in flat], f'{what}: buttons')
        same ([[[x.name for x in side] for side in row] for row in k], [[[x['name'] for x in side] for side in row] for row in d['rows']], f'{what}: rows')
        for i, side, x in flat:
            checkButton (k[x['name']], x, what)
            need (k.find (x['name']) == k[x['name']], f'{what}: find')
            same (k.getRow (k[x['name']]), i, f'{what}: row of {x["name"]}')
            # a button is identified by its name
            same (k.getRow (a[x['name']]), i, f'{what}: row of {x["name"]}')
            rec.step ()
        for n in ('nope', '', 'K', 'k0'):
            try:
                k[n]
                raise Violation (f'{what}: button {n!r} found')
            except KeyError:
                pass
    for s in (s1, s2, s3):
        same ([[[plainButton (x) for x in side] for side in row] for row in s['rows']], [[[plainButton (x) for x in side] for side in row] for row in d['rows']], f'{what}: serialised')
    rec.trace ()

class ShippedKeyboards (Suite):
    name = 'shipped-keyboards'
    bounds = 'the shipped keyboards; every button is in the row of its name (B to F), on its side (l, r); names are unique'
    def cases (self, tier):
        import os
        yield from sorted (x[:-5] for x in os.listdir (os.path.join (kit.DATA, 'keyboards')) if x.endswith ('.yaml'))

    def check (self, case, rec):
        d = kit.dataFile ('keyboards', case)
        checkKeyboard (d, rec, case)
        k = K.defaultKeyboards[case]
        names = [b.name for b in k.keys ()]
        same (len (set (names)), len (names), 'distinct button names')
        need (set (names) == {x['name'] for row in d['rows'] for s in row for x in s}, 'buttons')
        for b in k.keys ():
            row = k.getRow (b)
            if b.name.startswith ('CD'):
                need (row in (1, 2), 'row of return')
                continue
            same (row, 'BCDEF'.index (b.name[0]), f'row of {b.name}')
            l, r = k.rows[row]
            need (b in (l if b.name[1] == 'l' else r), f'{b.name} on the wrong side')
        rec.state (case)

class Interference (Suite):
    name = 'several-keyboards'
    bounds = 'all orders of loading 3 keyboards which define the same button names with different properties, 3 layouts adapted to each: every object keeps its own data'
    def cases (self, tier):
        yield from itertools.product (range (3), repeat=4)

    def check (self, case, rec):
        kinds = [dict (kind='letter', width=1, scancode={'windows': [1]}), dict (kind='letter', width=2, isMarked=True, scancode={'windows': [2, 3], 'xorg': 1}), dict (width=3, scancode=None)]
        made = []
        for c in case:
            d = dict (name=f'k{c}', description='', rows=[[[dict (kinds[c], name='A1')], [dict (kinds[(c+1) % 3], name='A2')]], [[dict (kinds[(c+2) % 3], name='A3')], []]])
            if c == 2:
                d['rows'].reverse ()
            k = K.PhysicalKeyboard.deserialize (copy.deepcopy (d))
            lay = L.GenericLayout.deserialize (data ([([[]], {'A1': 'x', 'A2': f'{c}'}), ([['A3']], {'A1': 'X'})])).specialize (k)
            made.append ((c, d, k, lay))
            for c2, d2, k2, lay2 in made:
                for i, row in enumerate (d2['rows']):
                    for side in row:
                        for x in side:
                            checkButton (k2[x['name']], x, f'{case}')
                            same (k2.getRow (k2[x['name']]), i, f'{case}: row')
                            # buttons of another keyboard denote the same button
                            same (k2.getRow (k[x['name']]), i, f'{case}: row of a button of another keyboard')
                same (plain (lay2), norm ([([[]], {'A1': 'x', 'A2': f'{c2}'}), ([['A3']], {'A1': 'X'})]), f'{case}: layout')
                for b, t in lay2.layers[0].layout.items ():
                    checkButton (b, [x for row in d2['rows'] for s in row for x in s if x['name'] == b.name][0], f'{case}: button of the layout')
                same (lay2.getText (L.ButtonCombination (frozenset ([k['A3']]), frozenset ([k['A1']]))), 'X', f'{case}: lookup with buttons of another keyboard')
                rec.step ()
        rec.trace ()
        rec.state (case)

SUITES = [Layouts (), ManyLayers (), Shipped (), History (), Buttons (), Widths (), Keyboards (), ShippedKeyboards (), Interference ()]
