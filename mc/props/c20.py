""" C20: SVG rendering """
import collections, itertools, os, re, copy
from xml.etree import ElementTree as ET
import yaml
from .. import kit, ref, core, refexport as X
from ..core import Suite, Violation, need, same, words, close
from ..refdisplay import display
from lulua import render as R

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of layouts, keyboards and heat maps; the SVG file written by the real command is parsed and its geometry and labels are compared with the layout (independent display forms, fingers and geometry rules)'
RULE = 'states are the (keyboard, layout, heat map) rendered; transitions are the buttons and labels compared'
ASSUMPTIONS = ['the classes used by the style sheet (cap, cap-shadow, highlight, label, layer-N, marker, unused, modifier, controlchar, shadow, finger-*, hand-*) are the interface of the picture', 'layouts with up to four layers; texts are not control characters without a symbol']

SVG = '{http://www.w3.org/2000/svg}'
FONTS = '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2'
ARROW = {1: '\u2b61', 2: '\u2b67', 3: '\u2b68'}
# corner of every layer: left/right, top/bottom
CORNER = {0: (-1, 1), 1: (-1, -1), 2: (1, -1), 3: (1, 1)}
FINGER = {1: 'little', 2: 'ring', 3: 'middle', 4: 'index', 5: 'thumb'}

def prepare (d):
    os.makedirs (os.path.join (d, FONTS))
    for w in ('Thin', 'Regular'):
        with open (os.path.join (d, FONTS, f'IBMPlexSansArabic-{w}.woff2'), 'wb') as fd:
            fd.write (b'font')

def render (d, layout=None, layers=None, keyboard=None, heat=None):
    argv = []
    if layers is not None:
        with open (os.path.join (d, 'l.yaml'), 'w') as fd:
            yaml.dump (dict (name='test', layout=[dict (modifier=[list (m) for m in ms], layer=l) for ms, l in layers]), fd)
        layout = 'l.yaml'
    argv += ['-l', layout]
    if keyboard is not None:
        with open (os.path.join (d, 'k.yaml'), 'w') as fd:
            yaml.dump (keyboard, fd)
        argv += ['-k', 'k.yaml']
    argv += ['svg']
    if heat is not None:
        with open (os.path.join (d, 'h.yaml'), 'w') as fd:
            yaml.dump (heat, fd)
        argv += ['--heatmap', 'h.yaml']
    out = os.path.join (d, 'o.svg')
    if os.path.exists (out):
        os.unlink (out)
    r = core.cli (R.render, argv + [out], cwd=d)
    need (r.ret in (None, 0), f'exit status {r.ret} {r.err[-300:]}')
    with open (out, 'rb') as fd:
        return fd.read ()

def classes (e):
    return set ((e.get ('class') or '').split ())

def num (e, k):
    return float (re.sub ('px$', '', e.get (k)))

def rect (e):
    return num (e, 'x'), num (e, 'y'), num (e, 'width'), num (e, 'height')

def groups (root, cls):
    """ all elements below top level groups of this class """
    out = [g for g in root.iter (SVG + 'g') if cls in classes (g)]
    return out

def inside (p, r):
    return r[0] <= p[0] <= r[0]+r[2] and r[1] <= p[1] <= r[1]+r[3]

def check (data, layers, kbd, heat, rec, what):
    """ layers: [(modifiers, {button: text})], kbd: plain keyboard data """
    try:
        root = ET.fromstring (data)
    except ET.ParseError as e:
        raise Violation (f'{what}: not well-formed: {e}')
    W, H = num (root, 'width'), num (root, 'height')
    caps = [e for g in groups (root, 'cap') for e in g.iter (SVG + 'rect')]
    flat = [(i, side, b) for i, row in enumerate (kbd['rows']) for side in (0, 1) for b in row[side]]
    same (len (caps), len (flat), f'{what}: number of buttons drawn')
    # assign by geometry: top to bottom, left to right
    caps.sort (key=lambda e: (rect (e)[1], rect (e)[0]))
    pos = {}
    unit = None
    rowY = {}
    for e, (i, side, b) in zip (caps, flat):
        r = rect (e)
        pos[b['name']] = (r, e)
        u = r[2]/b.get ('width', 1)
        unit = unit or u
        close (u, unit, f'{what}: width of {b["name"]} per unit')
        rowY.setdefault (i, r[1])
        close (r[1], rowY[i], f'{what}: {b["name"]} is in line with its row')
        close (r[3], unit, f'{what}: height of {b["name"]}')
        need (r[0] >= 0 and r[1] >= 0 and r[0]+r[2] <= W+1e-6 and r[1]+r[3] <= H+1e-6, f'{what}: {b["name"]} {r} is outside of the picture {W}x{H}')
        rec.step ()
    ys = [rowY[i] for i in sorted (rowY)]
    need (all (a < b for a, b in zip (ys, ys[1:])), f'{what}: rows {ys}')
    ids = list (pos)
    prev = None
    for i, side, b in flat:
        r = pos[b['name']][0]
        if prev is not None and prev[0] == i:
            q = pos[prev[1]][0]
            need (q[0]+q[2] <= r[0]+1e-6, f'{what}: {prev[1]} {q} overlaps {b["name"]} {r}')
        prev = (i, b['name'])
    for i in sorted (rowY)[:-1]:
        need (rowY[i]+unit <= min (y for y in ys if y > rowY[i])+1e-6, f'{what}: rows overlap')
    def owner (p, kind, slack=0):
        for n, (r, e) in pos.items ():
            if inside (p, (r[0]-slack, r[1]-slack, r[2]+2*slack, r[3]+2*slack)):
                return n
        raise Violation (f'{what}: {kind} at {p} does not belong to any button')
    modOf = {}
    for i, (ms, _) in enumerate (layers):
        for m in ms:
            if len (m) == 1:
                modOf[m[0]] = i
    # expected labels
    want = {}
    for i, side, b in flat:
        n = b['name']
        if n in modOf:
            want[n] = {0: ARROW[modOf[n]]}
        else:
            want[n] = {k: display (l[n]) for k, (_, l) in enumerate (layers) if n in l}
    got = collections.defaultdict (dict)
    shadows = collections.defaultdict (dict)
    modGroups = set ()
    for g in groups (root, 'label'):
        for t in g.iter (SVG + 'text'):
            p = (num (t, 'x'), num (t, 'y'))
            shadow = 'shadow' in classes (t)
            n = owner (p, 'label')
            r = pos[n][0]
            dx, dy = p[0]-(r[0]+r[2]/2), p[1]-(r[1]+r[3]/2)
            spans = list (t.iter (SVG + 'tspan'))
            text = ''.join (t.itertext ())
            if len (spans) == 1:
                text = spans[0].text or ''
            cls = set ().union (*[classes (s) for s in spans]) if spans else set ()
            corner = (1 if dx > 0 else -1, 1 if dy > 0 else -1)
            k = [i for i, c in CORNER.items () if c == corner][0]
            if 'controlchar' in cls:
                text = f'[{text}]'
            else:
                lay = [int (c[6:])-1 for c in cls if c.startswith ('layer-')]
                same (lay, [k], f'{what}: layer class of {text!r} on {n} in corner {corner}')
            to = shadows if shadow else got
            need (k not in to[n], f'{what}: two labels in the same corner of {n}')
            to[n][k] = text
            rec.step ()
        for x in g.iter (SVG + 'g'):
            if 'modifier' in classes (x):
                for t in x.iter (SVG + 'text'):
                    if 'shadow' not in classes (t):
                        modGroups.add (owner ((num (t, 'x'), num (t, 'y')), 'label'))
    for i, side, b in flat:
        n = b['name']
        same (got.get (n, {}), want[n], f'{what}: labels of {n}')
        same (shadows.get (n, {}), want[n], f'{what}: shadows of the labels of {n}')
        same ('unused' in classes (pos[n][1]), not want[n], f'{what}: {n} is unused')
        same (n in modGroups, n in modOf, f'{what}: {n} is a modifier')
    # fingers
    seen = {}
    for g in groups (root, 'cap-shadow'):
        for e in g.iter (SVG + 'rect'):
            r = rect (e)
            n = owner ((r[0]+r[2]/2, r[1]+r[3]/2), 'shadow')
            need (n not in seen, f'{what}: two shadows of {n}')
            q = pos[n][0]
            need (abs (r[0]-q[0]) < unit/4 and abs (r[1]-q[1]) < unit/4, f'{what}: shadow of {n} is elsewhere')
            close (r[2], q[2], f'{what}: width of the shadow of {n}')
            seen[n] = classes (e)
    for i, side, b in flat:
        n = b['name']
        if want[n]:
            h, f = ref.handFinger[n]
            same (seen.get (n), {f'finger-{FINGER[f]}', f'hand-{"left" if h == ref.LEFT else "right"}'}, f'{what}: finger of {n}')
        else:
            need (n not in seen, f'{what}: unused {n} has a finger')
    # marker
    marked = []
    for g in groups (root, 'marker'):
        lines = [l for l in g.iter (SVG + 'line')]
        need (len (lines) >= 1, 'marker without a line')
        l = [l for l in lines if 'shadow' not in classes (l)]
        same (len (l), 1, f'{what}: lines of a marker')
        a, b = (num (l[0], 'x1'), num (l[0], 'y1')), (num (l[0], 'x2'), num (l[0], 'y2'))
        n = owner (a, 'marker')
        same (owner (b, 'marker'), n, f'{what}: marker')
        marked.append (n)
    same (sorted (marked), sorted (b['name'] for _, _, b in flat if b.get ('isMarked')), f'{what}: marked buttons')
    # heat map
    circles, radius = {}, {}
    for g in groups (root, 'highlight'):
        for c in g.iter (SVG + 'circle'):
            n = owner ((num (c, 'cx'), num (c, 'cy')), 'highlight')
            need (n not in circles, f'{what}: two highlights of {n}')
            q = pos[n][0]
            close (num (c, 'cx'), q[0]+q[2]/2, f'{what}: highlight of {n}')
            close (num (c, 'cy'), q[1]+q[3]/2, f'{what}: highlight of {n}')
            need (0 < num (c, 'r') <= min (q[2], q[3])/2+1e-6, f'{what}: size of the highlight of {n}')
            m = re.search (r'opacity:\s*([0-9.eE+-]+)', c.get ('style') or '')
            # only the opacity depends on the count
            r = radius.setdefault ((round (q[2], 3), round (q[3], 3)), num (c, 'r'))
            close (num (c, 'r'), r, f'{what}: size of the highlight of {n}, compared to buttons of the same size')
            circles[n] = float (m.group (1)) if m else float (c.get ('opacity', 'nan'))
    counts = (heat or {}).get ('buttons') or {}
    top = max (counts.values (), default=0)
    for i, side, b in flat:
        n = b['name']
        v = counts.get (n, 0)/top if top else 0
        if v == 0:
            need (n not in circles, f'{what}: {n} without count is highlighted')
        else:
            need (n in circles, f'{what}: {n} is not highlighted')
            close (circles[n], v, f'{what}: highlight of {n}', tol=1e-6)
    rec.trace ()

def subset (names, widths=None, marks=()):
    full = kit.dataFile ('keyboards', 'ibmpc105')
    rows = []
    for l, r in full['rows']:
        rows.append ([[x for x in l if x['name'] in names], [x for x in r if x['name'] in names]])
    rows = [r for r in rows if r[0] or r[1]]
    for row in rows:
        for s in row:
            for i, x in enumerate (s):
                x.pop ('isMarked', None)
                if x['name'] in marks:
                    x['isMarked'] = True
                if widths and x['name'] in widths:
                    x['width'] = widths[x['name']]
    return dict (name='k', description='', rows=rows)

class Shipped (Suite):
    name = 'shipped-layouts'
    bounds = 'all shipped layouts, without heat map and with a heat map with a different count for every button'
    def cases (self, tier):
        for n in kit.layoutNames ():
            for h in (0, 1):
                yield (n, h)

    def check (self, case, rec):
        n, h = case
        data = kit.dataFile ('layouts', n)
        kbd = kit.dataFile ('keyboards', 'ibmpc105')
        heat = None
        if h:
            heat = dict (total=0, buttons={b: 7*i for i, b in enumerate (x['name'] for row in kbd['rows'] for s in row for x in s)})
        with core.Scratch () as d:
            prepare (d)
            check (render (d, layout=n, heat=heat), [(l['modifier'], l['layer']) for l in data['layout']], kbd, heat, rec, f'{n}')
        rec.state (case)

TEXTS = ['a', 'ab', '\u0628', '\u064b', '\u064b\u0651', '\u200c', '\u200d', '\u2066', '\t', '\n', ' ', '\b', '\u202f', '\u00a0', '<', '&', '"', "'", '[', ']', '\u0644\u0627', '\U0001f600', '\u00ad', '%', None, 'A', '\u0627\u0653', '#', '\\', '(']
STD = [[[]], [['El_shift'], ['Er_shift']], [['Dl_caps'], ['Dr1']], [['El1'], ['Fr_altgr']]]

class Texts (Suite):
    name = 'texts-at-every-position'
    bounds = '29 kinds of texts and nothing, at every button and in each of 1 to 4 layers (all cyclic assignments)'
    def cases (self, tier):
        for k in range (len (TEXTS)):
            for stride in (1, ) if tier == 'quick' else (1, 7, 11, 13):
                for n in (4, ) if k % 4 and tier == 'quick' else (1, 2, 3, 4):
                    yield (k, stride, n)

    def check (self, case, rec):
        k, stride, n = case
        kbd = kit.dataFile ('keyboards', 'ibmpc105')
        mods = {b for ms in STD[:n] for m in ms for b in m}
        names = [x['name'] for row in kbd['rows'] for s in row for x in s if x['name'] not in mods]
        layers = [(STD[i], {b: TEXTS[(k + stride*j + 7*i) % len (TEXTS)] for j, b in enumerate (names) if TEXTS[(k + stride*j + 7*i) % len (TEXTS)] is not None}) for i in range (n)]
        with core.Scratch () as d:
            prepare (d)
            check (render (d, layers=layers), layers, kbd, None, rec, f'texts {case}')
        rec.state (case)

class Small (Suite):
    name = 'small-layouts'
    bounds = 'a keyboard with 3 buttons in two rows: all assignments of nothing, a letter, a mark or a format control to the 2 letter buttons in 3 layers, third button a modifier of any layer or none'
    def cases (self, tier):
        for v in itertools.product ((None, 'x', '\u064b', '\u200c'), repeat=4):
            yield v

    def check (self, case, rec):
        kbd = subset (['Dl1', 'Dr6', 'El1'], marks=['Dr6'])
        with core.Scratch () as d:
            prepare (d)
            for third in itertools.product ((None, 'y', '\u200c'), repeat=2) if case[0] != 'x' else [(None, None), ('y', None)]:
                v = tuple (case) + third
                for mod in (None, 1, 2):
                    layers = [([[]], {}), ([], {}), ([], {})]
                    for i in range (3):
                        for j, b in enumerate (('Dl1', 'Dr6')):
                            if v[2*i+j] is not None:
                                layers[i][1][b] = v[2*i+j]
                    if mod is not None:
                        layers[mod][0].append (['El1'])
                    check (render (d, layers=layers, keyboard=kbd), layers, kbd, None, rec, f'{layers}')
                    rec.state ((v, mod))

class Modifiers (Suite):
    name = 'modifiers'
    bounds = 'all assignments of 6 buttons to the modifiers of layers 2 to 4 (one or two each)'
    def cases (self, tier):
        keys = ('El_shift', 'Er_shift', 'Dl_caps', 'Dr1', 'El1', 'Fr_altgr')
        for p in itertools.permutations (keys, 3):
            yield tuple ((x, ) for x in p)
        for p in itertools.combinations (keys, 2):
            yield (p, )
            rest = [k for k in keys if k not in p]
            yield (p, tuple (rest[:2]), tuple (rest[2:]))

    def check (self, case, rec):
        kbd = subset (['El_shift', 'Er_shift', 'Dl_caps', 'Dr1', 'El1', 'Fr_altgr', 'Dl1', 'Fl_space'], marks=['Dl1', 'Dr1'])
        layers = [([[]], {'Dl1': 'a', 'Fl_space': ' '})]
        for i, ms in enumerate (case):
            layers.append (([[m] for m in ms], {'Dl1': chr (0x41+i)}))
        with core.Scratch () as d:
            prepare (d)
            check (render (d, layers=layers, keyboard=kbd), layers, kbd, None, rec, f'{case}')
        rec.state (case)

class Keyboards (Suite):
    name = 'keyboards'
    bounds = 'all keyboards with 2 rows of 0 to 2 buttons per half and 3 width patterns; all with 3 rows of up to 1+1; markers on every second button; used and unused buttons'
    NAMES = [(['Cl1', 'Cl2'], ['Cr7', 'Cr6']), (['Dl1', 'Dl2'], ['Dr7', 'Dr6']), (['Fl_ctrl', 'Fl_space'], ['Fr_altgr', 'Fr_ctrl'])]
    def cases (self, tier):
        for s in itertools.product (range (3), repeat=4):
            for w in range (3):
                yield (s, w)
        for s in itertools.product (range (2), repeat=6):
            yield (s, 0)

    def check (self, case, rec):
        s, w = case
        if not sum (s):
            return
        rows = []
        k = 0
        layer = {}
        for i in range (len (s)//2):
            row = [[], []]
            for side in (0, 1):
                for j in range (s[2*i+side]):
                    n = self.NAMES[i][side][j]
                    row[side].append (dict (name=n, kind='letter', width=(1, 1.5, 0.75, 3.25)[(k*w) % 4], isMarked=bool (k % 2)))
                    if k % 3 != 1:
                        layer[n] = 'x'
                    k += 1
            rows.append (row)
        kbd = dict (name='k', description='', rows=rows)
        with core.Scratch () as d:
            prepare (d)
            heat = dict (total=1, buttons={n: 1 for n in layer})
            check (render (d, layers=[([[]], layer)], keyboard=kbd, heat=heat), [([[]], layer)], kbd, heat, rec, f'{case}')
        rec.state (case)

class Heat (Suite):
    name = 'heat-maps'
    bounds = 'all assignments of absent, 0, 1, 2, 3, 10^9 to 3 buttons, plus counts of buttons which are not on the keyboard; no buttons at all'
    def cases (self, tier):
        yield from itertools.product ((None, 0, 1, 2, 3, 10**9), repeat=3)

    def check (self, case, rec):
        kbd = subset (['Dl1', 'Dr6', 'Fl_space'])
        layers = [([[]], {'Dl1': 'a', 'Dr6': 'b'})]
        with core.Scratch () as d:
            prepare (d)
            for extra in ({}, {'Br1': 4}):
                heat = dict (total=5, buttons={b: v for b, v in zip (('Dl1', 'Dr6', 'Fl_space'), case) if v is not None})
                heat['buttons'].update (extra)
                check (render (d, layers=layers, keyboard=kbd, heat=heat), layers, kbd, heat, rec, f'heat map {heat}')
        rec.state (case)

class Single (Suite):
    name = 'single-buttons'
    bounds = 'every button of the standard keyboard: as the only one with text, the only one without text, the only one highlighted, the only marked one and the only wide one (in each of 1 to 4 layers)'
    def cases (self, tier):
        for row in kit.dataFile ('keyboards', 'ibmpc105')['rows']:
            for s in row:
                for b in s:
                    yield b['name']

    def check (self, name, rec):
        with core.Scratch () as d:
            prepare (d)
            for n in range (1, 5):
                kbd = kit.dataFile ('keyboards', 'ibmpc105')
                # leaves a modifier for every layer
                mods = [[[]]] + [[[m]] for m in [x for x in ('El_shift', 'Dl_caps', 'El1', 'Fr_altgr') if x != name][:n-1]]
                used = {m[0] for ms in mods for m in ms if m}
                for row in kbd['rows']:
                    for s in row:
                        for b in s:
                            b.pop ('isMarked', None)
                            if b['name'] == name:
                                b.update (isMarked=True, width=b.get ('width', 1) + 0.5*n)
                names = [b['name'] for row in kbd['rows'] for s in row for b in s if b['name'] not in used]
                for others in (0, 1):
                    layers = [(ms, {}) for ms in mods]
                    for i, (ms, l) in enumerate (layers):
                        for b in names:
                            if (b != name) == bool (others) and (others or i == n-1):
                                l[b] = chr (0x61+i)
                    heat = dict (total=n, buttons={name: n}) if n % 2 else None
                    check (render (d, layers=layers, keyboard=kbd, heat=heat), layers, kbd, heat, rec, f'{name} {"without" if others else "with"} text, {n} layers')
                    rec.state ((name, n, others))

SUITES = [Shipped (), Texts (), Small (), Modifiers (), Keyboards (), Heat (), Single ()]
