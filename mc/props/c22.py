""" C22: analysis outputs """
import base64, gzip, collections, itertools, io, json, math, os, pickle, re, unicodedata
import yaml
from .. import kit, ref, core, refeffort as R
from ..core import Suite, Violation, need, same, words, close
from ..refdisplay import display
from lulua import stats as S, writer as W, layout as L

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of statistics (all assignments of small counts to small sets of buttons, combinations, words and triads) and options; every analysis command runs for real on each and its output is compared with the definition evaluated on plain counts'
RULE = 'states are the distinct (statistics, command, options); transitions are the output values compared'
ASSUMPTIONS = ['triads consist of buttons with a known effort', 'cumulative triad data needs triads whose effort is not zero altogether', 'equally frequent triads may be listed and selected in any order']

ALEF, YAH, WAW = '\u0627', '\u064a', '\u0648'
HA, HB = '\u0654', '\u0655'
# the same text on several positions and layers, letters with hamza, several
# characters on one button, texts which concatenate to the same string
RICH = [
    ([[]], {'Dl3': ALEF, 'Dl4': YAH, 'Dr6': WAW, 'Dr5': '\u0628', 'Cl2': 'a', 'Cl3': 'bc', 'El2': '7', 'Fl_space': ' ', 'CD_ret': '\n', 'Cl_tab': '\t', 'Er1': '\u064b'}),
    ([['El_shift'], ['Er_shift']], {'Dl3': ALEF+HA, 'Dl4': YAH+HA, 'Dr6': WAW+HA, 'Dr5': '\u0628', 'Cl2': 'ab', 'Cl3': 'c', 'El2': '\u200c', 'Er1': '\u0629'}),
    ([['Fr_altgr']], {'Dl3': ALEF+HB, 'Cl4': ALEF, 'Br1': ALEF+HA, 'Er1': '\u0644'+ALEF, 'El2': '\u0663'}),
    ]
# no hamza, alef typed by one key only
PLAIN = [
    ([[]], {'Dl3': ALEF, 'Dl4': YAH, 'Dr6': WAW, 'Dr5': '\u0628', 'Cl2': 'a', 'Fl_space': ' '}),
    ([['El_shift'], ['Er_shift']], {'Dr5': HA, 'Dl3': HB}),
    ]
# every letter in many places
_six = [([[]], ALEF), ([['El_shift'], ['Er_shift'], ['Dl_caps']], ALEF+HA), ([['Fr_altgr'], ['El1']], ALEF+HB), ([['Fl_ctrl']], YAH+HA), ([['Fr_ctrl'], ['Fl_alt']], WAW+HA)]
MANY = [(ms, {'Dl3': s, 'Dl4': ALEF, 'Dr6': s, 'Dr5': YAH if len (s) == 1 else s, 'Cl2': WAW, 'Cl3': ALEF+HA, 'Cr5': ALEF+HB, 'Br1': s}) for ms, s in _six]
LAYOUTS = dict (rich=RICH, plain=PLAIN, many=MANY)
# every key of the keyboard is used, in three layers
_mods = ('El_shift', 'Er_shift', 'Fr_altgr')
_keys = [b['name'] for row in kit.dataFile ('keyboards', 'ibmpc105')['rows'] for part in row for b in part if b['name'] in ref.handFinger and b['name'] not in _mods]
EVERY = [(ms, {b: chr (0x1200+0x100*k+i) if i > 2 or k else (ALEF, YAH, WAW)[i] for i, b in enumerate (_keys)}) for k, ms in enumerate (([[]], [['El_shift'], ['Er_shift']], [['Fr_altgr']]))]

LOCAL, LOCALKBD = {}, {}

def load (name):
    """ (real layout, reference) """
    if name in LOCAL:
        return kit.build (LOCAL[name], name=name, kbd=LOCALKBD.get (name))
    if name == 'every':
        return kit.build (EVERY, name=name)
    if name in LAYOUTS:
        return kit.build (LAYOUTS[name], name=name)
    return kit.shipped (name)

class World:
    """ Directory with the layouts, commands run there """
    # arguments for all commands
    options = []

    def __enter__ (self):
        self.s = core.Scratch ()
        self.dir = self.s.__enter__ ()
        for n, layers in [*LAYOUTS.items (), ('every', EVERY)]:
            with open (os.path.join (self.dir, n), 'w') as fd:
                yaml.dump (dict (name=n, layout=[dict (modifier=[list (m) for m in ms], layer=l) for ms, l in layers]), fd)
        return self

    def __exit__ (self, *a):
        return self.s.__exit__ (*a)

    def run (self, layout, argv, stdin):
        r = core.cli (S.main, self.options + ['-l', layout] + argv, stdin=stdin, cwd=self.dir)
        need (r.ret in (None, 0), f'{argv}: exit status {r.ret} {r.err[-300:]}')
        return r.out

def make (layout, combs=(), triads=(), words=(), unknown=()):
    """ pickled real statistics with these counts (plain names) """
    real, lay = load (layout)
    st = kit.freshStats (W.Writer (real))
    c = ref.Counts ()
    for (mods, b), n in dict (combs).items ():
        c.combinations[(mods, b)] = n
        for x in list (mods) + [b]:
            c.buttons[x] += n
    kbd = kit.keyboard ()
    for k, n in c.combinations.items ():
        st['simple'].combinations[kit.combReal (k)] += n
    for k, n in c.buttons.items ():
        st['simple'].buttons[kbd[k]] += n
    for k, n in dict (unknown).items ():
        st['simple'].unknown[k] += n
    for t, n in dict (triads).items ():
        st['triads'].triads[tuple (kit.combReal (x) for x in t)] += n
    for w, n in dict (words).items ():
        st['words'].words[w] += n
    return pickle.dumps (st), c

def fromText (layout, text):
    real, lay = load (layout)
    w = W.Writer (real)
    st = kit.freshStats (w)
    for m, e in w.type (io.StringIO (text)):
        for s in st.values ():
            s.process (e)
    return pickle.dumps (st), ref.count (ref.typeText (lay, text)[0])

def nonzero (d):
    return {k: v for k, v in d.items () if v}

# ------------------------------------------------------------- the commands

def checkHeatmap (world, layout, data, c, what):
    d = yaml.safe_load (world.run (layout, ['keyheatmap'], data))
    same (d['total'], sum (c.buttons.values ()), f'{what}: heat map total')
    same (nonzero (d['buttons']), dict (nonzero (c.buttons)), f'{what}: heat map')
    return len (c.buttons)+1

def checkLayoutstats (world, layout, data, c, what):
    real, lay = load (layout)
    d = pickle.loads (world.run (layout, ['layoutstats'], data))
    hands, fingers = collections.Counter (), collections.Counter ()
    for b, n in c.buttons.items ():
        hands[ref.hand (b)] += n
        fingers[ref.handFinger[b]] += n
    total = sum (c.buttons.values ())
    same (d['layout'], layout, f'{what}: layout name')
    same (nonzero ({kit.SIDE[k]: v for k, v in d['hands'].items ()}), nonzero (hands), f'{what}: hands')
    same (nonzero ({(kit.SIDE[h], int (f)): v for (h, f), v in d['fingers'].items ()}), nonzero (fingers), f'{what}: fingers')
    same (d['buttonPresses'], total, f'{what}: button presses')
    share = lambda a, b: a/b if b else 0
    close (d['asymmetry'], share (hands['L']-hands['R'], total), f'{what}: asymmetry')
    per = collections.Counter ()
    for k, n in c.combinations.items ():
        per[lay.text[k]] += n
    hamza = [ALEF+HA, ALEF+HB, YAH+HA, WAW+HA]
    close (d['hamzaImpact'], share (sum (per[x] for x in hamza), sum (c.combinations.values ())), f'{what}: share of letters with hamza')
    onAlef = per[ALEF+HA] + per[ALEF+HB]
    close (d['hamzaOnAlef'], share (onAlef, onAlef + per[ALEF]), f'{what}: share of hamza on alef')
    return 7

def columns (o):
    """ all data sources in a bokeh document """
    if isinstance (o, dict):
        if o.get ('type') == 'map' and 'entries' in o:
            d = {k: v for k, v in o['entries'] if isinstance (k, str)}
            yield d
        else:
            yield o
        for v in o.values ():
            yield from columns (v)
    elif isinstance (o, list):
        for v in o:
            yield from columns (v)

def plain (v):
    """ numbers of a bokeh data column """
    import numpy as np
    if isinstance (v, dict) and v.get ('type') == 'ndarray':
        a = v['array']
        if isinstance (a, dict) and 'data' in a:
            raw = base64.b64decode (a['data'])
            if raw[:2] == b'\x1f\x8b':
                raw = gzip.decompress (raw)
            return np.frombuffer (raw, dtype=v['dtype']).tolist ()
        return list (a)
    if isinstance (v, dict) and '__ndarray__' in v:
        return np.frombuffer (base64.b64decode (v['__ndarray__']), dtype=v['dtype']).tolist ()
    return v

def checkLetterfreq (world, layout, data, c, what):
    real, lay = load (layout)
    doc = json.loads (world.run (layout, ['letterfreq'], data))
    per = collections.Counter ()
    for k, n in c.combinations.items ():
        t = lay.text[k]
        if unicodedata.category (t[0]) == 'Lo':
            per[t] += n
    src = [d for d in columns (doc) if 'letters' in d and 'rel' in d]
    need (len (src) == 1, f'{what}: no data in the letter frequency plot')
    src = {k: plain (v) for k, v in src[0].items ()}
    total = sum (per.values ())
    same (dict (zip (src['letters'], src['abs'])), dict (per), f'{what}: letter counts')
    same (len (src['letters']), len (per), f'{what}: number of letters')
    same (src['abs'], sorted (src['abs']), f'{what}: letters sorted by frequency')
    for i, t in enumerate (src['letters']):
        close (src['rel'][i], per[t]/total, f'{what}: share of {t!r}')
        rest = sum (per[x] for x in src['letters'][:i])
        same (src['cum'][i], total-rest, f'{what}: cumulative count of {t!r}')
        close (src['cumRel'][i], (total-rest)/total, f'{what}: cumulative share of {t!r}')
    return 4*len (per)+1

def checkLatinime (world, layout, data, c, what):
    out = world.run (layout, ['latinime'], data).decode ('utf-8')
    got = []
    header = False
    for line in out.split ('\n'):
        if line.startswith ('dictionary='):
            header = True
            need (not got, f'{what}: header after words')
        elif line.startswith (' word='):
            w, f = line[6:].rsplit (',f=', 1)
            got.append ((w, int (f)))
        else:
            need (not line or line.startswith ('#'), f'{what}: unexpected line {line!r}')
    need (header, f'{what}: header missing')
    total = sum (c.words.values ())
    same (sorted (w for w, f in got), sorted (c.words), f'{what}: words')
    for w, f in got:
        x = 255 + math.log (c.words[w]/total)/math.log (1.15)
        need (abs (f-x) <= 0.5+1e-9, f'{what}: frequency of {w!r} is {f}, should be {x}')
    n = [c.words[w] for w, f in got]
    same (n, sorted (n, reverse=True), f'{what}: order of words')
    return 2*len (got)+1

def checkCorpusstats (world, layout, data, c, what, meta):
    fn = os.path.join (world.dir, 'meta.yaml')
    with open (fn, 'w') as fd:
        yaml.dump (meta, fd, allow_unicode=True)
    out = world.run (layout, ['corpusstats', 'meta.yaml'], data)
    want = dict (meta, stats=dict (characters=sum (c.combinations.values ()), words=sum (c.words.values ())))
    # documents are concatenated
    docs = [x for x in yaml.safe_load_all ((out+out).decode ('utf-8')) if x is not None]
    same (docs, [want, want], f'{what}: corpus statistics')
    return 2

# triads by text
def bins (lay, triads):
    out = {}
    for t, n in triads.items ():
        k = tuple (lay.text[x] for x in t)
        out.setdefault (k, {})[t] = n
    m = R.MODELS['mod01']
    return {k: (sum (v.values ()), R.total (m, v)) for k, v in out.items ()}

def parseTriads (out, what):
    got = []
    for line in out.decode ('utf-8').split ('\n'):
        if line:
            text, weight, effort = line.rsplit (' ', 2)
            got.append ((text, int (weight), float (effort)))
    return got

def listed (got, want, what):
    """ every line is one of these triads, each at most once """
    rest = {}
    for k, (w, e) in want.items ():
        rest.setdefault ((''.join (map (display, k)), w), []).append (e)
    for t, w, e in got:
        r = rest.get ((t, w), [])
        alt = [x for x in r if abs (x-e) <= 1e-6*max (1, abs (e))]
        need (alt, lambda: f'{what}: {t!r} with weight {w} and effort {e} is wrong or repeated; triads are {str (want)[:2000]}')
        r.remove (alt[0])

def checkTriadfreq (world, layout, data, triads, what, cutoff, sort, reverse, limits=None):
    """ triads: {triad: count} """
    real, lay = load (layout)
    want = bins (lay, triads)
    total = sum (w for w, e in want.values ())
    top = []
    cum = 0
    for w, e in sorted (want.values (), key=lambda x: x[0], reverse=True):
        if cum < total*cutoff:
            top.append (w)
            cum += w
    argv = ['triadfreq', '-c', str (cutoff), '-s', sort] + (['-r'] if reverse else [])
    got = parseTriads (world.run (layout, argv, data), what)
    what = f'{what} {argv}'
    listed (got, want, what)
    same (sorted ((w for t, w, e in got), reverse=True), top, f'{what}: weights of the most frequent triads')
    key = dict (weight=lambda x: x[1], effort=lambda x: x[2], combined=lambda x: x[1]/total*x[2]**2)[sort]
    ks = [key (x) for x in got]
    for a, b in zip (ks, ks[1:]):
        need ((a >= b-1e-9*max (1, abs (b))) if reverse else (a <= b+1e-9*max (1, abs (b))), f'{what}: order {got}')
    n = len (got)
    for limit in sorted ({0, 1, n-1, n, n+1} if limits is None else limits):
        if limit >= 0:
            g2 = parseTriads (world.run (layout, argv + ['-n', str (limit)], data), what)
            same (len (g2), min (n, limit) if limit > 0 else n, f'{what}: number of triads with limit {limit}')
            listed (g2, want, f'{what} limit {limit}')
            for a, b in zip (map (key, g2), ks):
                close (a, b, f'{what}: order with limit {limit}')
    return len (got)+6

def checkEffortData (world, layout, data, triads, what):
    real, lay = load (layout)
    want = bins (lay, triads)
    out = world.run (layout, ['triadeffortdata'], data)
    d = pickle.loads (out)
    x, y = list (map (float, d['x'])), list (map (float, d['y']))
    same (len (x), len (y), f'{what}: number of points')
    same (d['layout'].name, layout if layout in LAYOUTS or layout in LOCAL or layout == 'every' else kit.dataFile ('layouts', layout)['name'], f'{what}: layout')
    close (x[-1], 1, f'{what}: last cumulative weight')
    close (y[-1], 1, f'{what}: last cumulative effort')
    total = sum (w for w, e in want.values ())
    effort = sum (w*e for w, e in want.values ())
    for a in (x, y):
        need (all (p <= q+1e-12 for p, q in zip (a, a[1:])) and a[0] >= 0, f'{what}: not monotone {a}')
    # the most frequent ones first; cumulative weights do not depend on the
    # order of equally frequent ones
    cum = [0]
    for w in sorted ((w for w, e in want.values ()), reverse=True):
        cum.append (cum[-1]+w)
    last = 0
    for p in x:
        i = min (range (len (cum)), key=lambda j: abs (cum[j]/total-p))
        need (abs (cum[i]/total-p) < 1e-9, f'{what}: {p} is not a cumulative weight of {cum}')
        # nothing left out except to thin the data
        skipped = [c for c in cum[last+1:i] if c >= cum[last]+max (1, total/200)]
        need (not skipped, f'{what}: {skipped} of {cum} are missing in {x}')
        last = i
    if len (set (w for w, e in want.values ())) == len (want):
        cumE = {}
        w0 = e0 = 0
        for w, e in sorted (want.values (), reverse=True):
            w0 += w
            e0 += w*e
            cumE[w0] = e0
        for p, q in zip (x, y):
            w = min (cumE, key=lambda v: abs (v/total-p))
            close (q, cumE[w]/effort, f'{what}: cumulative effort at {p}', tol=1e-7)
    return len (x)*2, out, x, y

def checkPretty (world, layout, data, c, what):
    real, lay = load (layout)
    out = world.run (layout, ['pretty'], data).decode ('utf-8')
    lines = out.split ('\n')
    for head, n in (('button presses', sum (c.buttons.values ())), ('combinations', sum (c.combinations.values ())), ('words', sum (c.words.values ()))):
        need (f'{head} {n}' in lines, f'{what}: {head} {n} missing in {out}')
    for k, n in c.unknown.items ():
        need (any (l.startswith (repr (k)) and l.split ()[-1] == str (n) for l in lines), f'{what}: unknown {k!r} {n} missing in {out}')
    last = [l for l in lines if l.startswith ('total effort')]
    need (len (last) == 1, f'{what}: total effort missing')
    close (float (last[0].split ()[-1]), R.total (R.MODELS['mod01'], c.triads), f'{what}: total effort')
    return 4+len (c.unknown) + checkPrettyLines (lay, lines, c, what)

def checkPrettyLines (lay, lines, c, what):
    """ every entry of every section, in any order unless ranked """
    heads = [('button presses ', ), ('combinations ', ), ('unknown', ), ('combined', ), ('triads', ), ('words ', ), ('total effort', )]
    pos = []
    for h, in heads:
        i = [k for k, l in enumerate (lines) if (l == h if h in ('unknown', 'combined', 'triads') else l.startswith (h))]
        need (len (i) == 1 and (not pos or i[0] > pos[-1]), f'{what}: section {h} missing in the summary')
        pos.append (i[0])
    part = {h: lines[a+1:b] for (h, ), a, b in zip (heads, pos, pos[1:])}
    known = set (ref.handFinger)
    names = lambda l: tuple (sorted (x for x in re.findall (r'\w+', l) if x in known))
    def number (l, pat):
        m = re.search (pat, l)
        need (m is not None, f'{what}: summary line {l!r}')
        return [float (x) if '.' in x else int (x) for x in m.groups ()]
    def compare (section, got, want, digits):
        """ entries (key, count, percentage) """
        same (sorted (x[:2] for x in got), sorted (x[:2] for x in want), f'{what}: {section} in the summary')
        share = {x[:2]: x[2] for x in want}
        for x in got:
            need (abs (x[2]-share[x[:2]]) <= 0.5000001*10**-digits, f'{what}: {section} {x}: share should be {share[x[:2]]}')
    pct = lambda n, total: 100*n/total
    total = sum (c.buttons.values ())
    compare ('buttons', [(names (l), *number (l, r' (\d+) +([\d.]+)%$')) for l in part['button presses ']], [((k, ), n, pct (n, total)) for k, n in c.buttons.items ()], 1)
    total = sum (c.combinations.values ())
    got = []
    for i, l in enumerate (part['combinations ']):
        rank, = number (l, r'^ *(\d+)\.')
        same (rank, len (c.combinations)-i, f'{what}: rank in {l!r}')
        n, share = number (l, r' (\d+) +([\d.]+)%$')
        need (not got or got[-1][1] <= n, f'{what}: combinations of the summary are not sorted')
        got.append ((names (l), n, share))
        need (any (l.split ('. ', 1)[1].startswith (display (lay.text[k])) for k in c.combinations if tuple (sorted ([*k[0], k[1]])) == names (l) and c.combinations[k] == n), lambda: f'{what}: text in {l!r}')
    compare ('combinations', got, [(tuple (sorted ([*k[0], k[1]])), n, pct (n, total)) for k, n in c.combinations.items ()], 3)
    same (len (part['unknown']) > 0 and len ([l for l in part['unknown'] if l[0] in '\'"']), len (c.unknown), f'{what}: number of unknown characters')
    # run lengths follow the name of the hand
    runs = [l for l in part['unknown'] if l.endswith ('%')]
    totals = collections.Counter ()
    both = collections.Counter ()
    for (h, k), n in c.hand.items ():
        totals[h] += n
        both[k] += n
    group, where = {}, None
    for l in part['unknown']:
        if l[0] not in '\'"' and not l.endswith ('%'):
            need (l not in group, f'{what}: hand {l} twice')
            where = group.setdefault (l, [])
        elif l.endswith ('%'):
            need (where is not None, f'{what}: run lengths without a hand')
            k, n, share = number (l, r'^ *(\d+) +(\d+) +([\d.]+)%$')
            where.append (((k, ), n, share))
    want = [[((k, ), n, pct (n, totals[h])) for (hh, k), n in c.hand.items () if hh == h] for h in totals]
    got = [g for g in group.values () if g]
    key = lambda g: sorted (x[:2] for x in g)
    same (sorted (map (key, got)), sorted (map (key, want)), f'{what}: hand run lengths in the summary')
    for g, w in zip (sorted (got, key=key), sorted (want, key=key)):
        compare ('hand run lengths', g, w, 1)
    compare ('run lengths of both hands', [((k, ), n, share) for k, n, share in (number (l, r'^ *(\d+) +(\d+) +([\d.]+)%$') for l in part['combined'])], [((k, ), n, pct (n, sum (both.values ()))) for k, n in both.items ()], 1)
    same (sorted ((names (l), *number (l, r' (\d+)$')) for l in part['triads']), sorted ((tuple (sorted (b for k in t for b in [*k[0], k[1]])), n) for t, n in c.triads.items ()), f'{what}: triads in the summary')
    total = sum (c.words.values ())
    compare ('words', [((l.split ()[0], ), *reversed (number (l, r' ([\d.]+) +(\d+)$'))) for l in part['words ']], [((k, ), n, pct (n, total)) for k, n in c.words.items ()], 5)
    return sum (map (len, part.values ()))

# ------------------------------------------------------------------- suites

COUNTS = (0, 1, 3)
def assignments (keys, counts):
    for v in itertools.product (counts, repeat=len (keys)):
        yield {k: n for k, n in zip (keys, v) if n}

def both (lay, text):
    return lay.strings[text]

class Combinations (Suite):
    name = 'combinations'
    bounds = 'all assignments of counts 0, 1, 3 to 6 combinations (all combinations typing alef, alef with hamza and others in turn; thorough: 7), heat map, layout statistics and letter frequencies on three layouts (one with every letter in 10 or more places)'
    GROUPS = [
        [ALEF, ALEF+HA, ALEF+HB],
        [YAH+HA, WAW+HA, ALEF],
        ['\u0628', '7', 'a', ' '],
        ['\u0644'+ALEF, '\u200c', '\u064b', '\u0629', '\u0663', '\n'],
        ]
    def pool (self, layout, g):
        real, lay = load (layout)
        p = [c for t in self.GROUPS[g] for c in lay.strings.get (t, [])]
        return p if layout != 'many' or len (p) < 14 else p[::len (p)//7]

    def cases (self, tier):
        for layout in LAYOUTS:
            for g in range (len (self.GROUPS)):
                p = self.pool (layout, g)[:6 if tier == 'quick' else 7]
                for first in itertools.product (COUNTS, repeat=min (2, len (p))):
                    yield (layout, g, len (p), first)

    def check (self, case, rec):
        layout, g, n, first = case
        p = self.pool (layout, g)[:n]
        with World () as world:
            for i, rest in enumerate (itertools.product (COUNTS, repeat=n-len (first))):
                v = tuple (first) + rest
                combs = {k: x for k, x in zip (p, v) if x}
                data, c = make (layout, combs)
                what = f'{layout} {combs}'
                rec.step (checkHeatmap (world, layout, data, c, what))
                rec.step (checkLayoutstats (world, layout, data, c, what))
                if i % 3 == 0:
                    rec.step (checkLetterfreq (world, layout, data, c, what))
                rec.trace (2)
                rec.state ((layout, sorted (map (repr, combs.items ()))))

class OtherLetters (Suite):
    name = 'other-letters'
    bounds = 'all layouts with any subset of alef, yah, waw, these with hamza, the hamzas alone and a Latin letter (1024), a different count for every key; layout statistics, heat map and letter frequencies (every 16th)'
    LETTERS = [ALEF, YAH, WAW, ALEF+HA, ALEF+HB, YAH+HA, WAW+HA, HA, HB, 'a']
    KEYS = ['Dl3', 'Dr6', 'Cl2', 'Dl4', 'Dr5', 'El2', 'Cr5', 'Er1', 'Br1', 'Bl3']
    def cases (self, tier):
        yield from range (0, 1 << len (self.LETTERS), 16)

    def check (self, start, rec):
        with World () as world:
            for bits in range (start, start+16):
                keys = {k: t for i, (k, t) in enumerate (zip (self.KEYS, self.LETTERS)) if bits >> i & 1}
                layers = [([[]], keys)]
                name = f'subset-{bits}'
                LOCAL[name] = layers
                with open (os.path.join (world.dir, name), 'w') as fd:
                    yaml.dump (dict (name=name, layout=[dict (modifier=[[]], layer=keys)]), fd)
                combs = {(frozenset (), k): 1 << self.KEYS.index (k) for k in keys}
                for combs in (combs, {}):
                    data, c = make (name, combs)
                    what = f'layout with {keys}, counts {combs}'
                    rec.step (checkHeatmap (world, name, data, c, what))
                    rec.step (checkLayoutstats (world, name, data, c, what))
                    if bits % 16 == 9:
                        rec.step (checkLetterfreq (world, name, data, c, what))
                    rec.trace (2)
                    rec.state ((bits, bool (combs)))
                del LOCAL[name]

class Shipped (Suite):
    name = 'shipped'
    bounds = 'every shipped layout: every single combination and every text of up to 2 (thorough 3) of 6 strings of it, all commands'
    def cases (self, tier):
        for name in kit.layoutNames ():
            real, lay = kit.shipped (name)
            n = len (lay.text)
            for i in range (0, n, 40):
                yield (tier, name, 'single', i)
            yield (tier, name, 'texts', 0)

    def check (self, case, rec):
        tier, name, kind, start = case
        real, lay = kit.shipped (name)
        with World () as world:
            if kind == 'single':
                for k in list (lay.text)[start:start+40]:
                    data, c = make (name, {k: 7})
                    what = f'{name} {k}'
                    rec.step (checkHeatmap (world, name, data, c, what))
                    rec.step (checkLayoutstats (world, name, data, c, what))
                    rec.trace (2)
                    rec.state ((name, repr (k)))
            else:
                letters = [s for s in lay.strings if unicodedata.category (s[0]) == 'Lo']
                pool = [ALEF, letters[0], letters[len (letters)//2], letters[-1], ' ', '?', next (s for s in lay.strings if len (s) > 1) if any (len (s) > 1 for s in lay.strings) else letters[1]]
                for t in words (pool, 2 if tier == 'quick' else 3):
                    text = ' '.join ((ALEF + ''.join (t) + ALEF, ''.join (t), YAH, ''.join (t[:1]))) + ' '
                    data, c = fromText (name, text)
                    what = f'{name} text {text!r}'
                    n = checkHeatmap (world, name, data, c, what)
                    n += checkLayoutstats (world, name, data, c, what)
                    n += checkLatinime (world, name, data, c, what)
                    n += checkLetterfreq (world, name, data, c, what)
                    n += checkCorpusstats (world, name, data, c, what, dict (name='x'))
                    usable = all (x in R.MODELS['mod01'].base for t in c.triads for k in t for x in list (k[0])+[k[1]])
                    if usable:
                        n += checkPretty (world, name, data, c, what)
                        if c.triads:
                            n += checkTriadfreq (world, name, data, c.triads, what, 0.5, 'combined', True)
                            if R.total (R.MODELS['mod01'], c.triads):
                                n += checkEffortData (world, name, data, c.triads, what)[0]
                    rec.step (n)
                    rec.trace (7)
                    rec.state ((name, text))

class Large (Suite):
    name = 'large'
    bounds = 'counts of 1, 255, 2**31, 2**50+1 and 10**15 on 3 combinations, 3 words, all assignments'
    def cases (self, tier):
        yield from itertools.product ((1, 255, 2**31, 2**50+1, 10**15), repeat=3)

    def check (self, v, rec):
        real, lay = load ('rich')
        combs = dict (zip ([lay.strings[ALEF][0], lay.strings[ALEF+HB][0], lay.strings['\u0628'][1]], v))
        w = dict (zip ((ALEF, ALEF+HA, '\u0628'+ALEF), v))
        with World () as world:
            data, c = make ('rich', combs, words=w)
            c.words.update (w)
            rec.step (checkHeatmap (world, 'rich', data, c, v))
            rec.step (checkLayoutstats (world, 'rich', data, c, v))
            rec.step (checkLetterfreq (world, 'rich', data, c, v))
            rec.step (checkLatinime (world, 'rich', data, c, v))
            rec.step (checkCorpusstats (world, 'rich', data, c, v, dict (name='x', source=dict (a=[1, 2]))))
        rec.trace (5)
        rec.state (v)

class Words (Suite):
    name = 'words'
    bounds = 'all assignments of counts 0, 1, 2, 5, 1000 to 4 (thorough 5) words, word list and corpus statistics with three metadata documents'
    POOL = [ALEF, ALEF+HA, '\u0628'+ALEF+'\u0628'*70, '\u064b', '\u0644'*30]
    METAS = [dict (name='a'), dict (name='\u0642', stats=dict (characters=1, words=2, other=3), x=None), {'source': {'title': {'en': 'x', 'ar': '\u0643'}}, 'list': [1, 'two: 3', '---']}]
    def cases (self, tier):
        n = 4 if tier == 'quick' else 5
        for first in itertools.product ((0, 1, 2, 5, 1000), repeat=2):
            yield (n, first)

    def check (self, case, rec):
        n, first = case
        real, lay = load ('rich')
        with World () as world:
            for i, rest in enumerate (itertools.product ((0, 1, 2, 5, 1000), repeat=n-2)):
                w = {k: x for k, x in zip (self.POOL, tuple (first) + rest) if x}
                data, c = make ('rich', {lay.strings[ALEF][0]: sum (w.values ())} if w else {}, words=w)
                c.words.update (w)
                rec.step (checkLatinime (world, 'rich', data, c, w))
                rec.step (checkCorpusstats (world, 'rich', data, c, w, self.METAS[i % 3]))
                rec.trace (2)
                rec.state (sorted (w.items ()))

def triadPool ():
    real, lay = load ('rich')
    s = lay.strings
    a, a2 = s[ALEF][0], s[ALEF][1]
    b, b2, b3 = s['\u0628'][:3]
    ca, cab, cbc, cc = s['a'][0], s['ab'][0], s['bc'][0], s['c'][1]
    return [
        (a, b, a),        # the same text ...
        (a2, b, a),       # ... on other positions
        (a, b2, a2),
        (b, b3, b),
        (ca, cbc, b),     # different texts, same concatenation
        (cab, cc, b),
        (b, a, s[WAW][0]),
        (s['\u064b'][0], s['\u200c'][0], s[ALEF+HB][0]),
        ]

class Triads (Suite):
    name = 'triads'
    bounds = 'all assignments of weights 0, 1, 2, 4 to 5 of 8 triads (two groups; thorough: 6), triad list with cutoff 0, 0.25, 0.5, 0.85, 1, three sort orders, both directions and all limits in turn, cumulative data on every one'
    GROUPS = [(0, 1, 3, 4, 6, 5), (0, 2, 4, 5, 7, 6)]
    WEIGHTS = (0, 1, 2, 4)
    OPTIONS = list (itertools.product ((0.0, 0.25, 0.5, 0.85, 1.0), ('weight', 'effort', 'combined'), (False, True)))
    def cases (self, tier):
        n = 5 if tier == 'quick' else 6
        for g in range (len (self.GROUPS)):
            for first in itertools.product (self.WEIGHTS, repeat=3):
                yield (tier, n, g, first)

    def check (self, case, rec):
        tier, n, g, first = case
        pool = triadPool ()
        pool = [pool[i] for i in self.GROUPS[g][:n]]
        real, lay = load ('rich')
        with World () as world:
            for i, rest in enumerate (itertools.product (self.WEIGHTS, repeat=n-len (first))):
                v = tuple (first) + rest
                t = {k: x for k, x in zip (pool, v) if x}
                data, c = make ('rich', triads=t)
                what = f'triad weights {v} (group {g})'
                opts = self.OPTIONS[sum (p*q for p, q in zip (v, (1, 7, 11, 13, 17, 19))) % 5::5]
                for cutoff, sort, reverse in opts:
                    rec.step (checkTriadfreq (world, 'rich', data, t, what, cutoff, sort, reverse))
                    rec.trace ()
                if t and R.total (R.MODELS['mod01'], t):
                    rec.step (checkEffortData (world, 'rich', data, t, what)[0])
                    rec.trace ()
                rec.state ((g, v))

class Curve (Suite):
    name = 'curve'
    bounds = 'triads over 3 to 12 keys (27 to 1728 triads) with constant, linear, geometric and mixed weights, total weights below and above the number of buckets; cumulative data, then the plot of such curves'
    KEYS = ['Cl1', 'Cl2', 'Dl1', 'Dr5', 'Er3', 'Cr4', 'Dl4', 'El2', 'Dr3', 'Bl4', 'Br3', 'Cr7']
    SHAPES = {
        'one': lambda i, n: 1, 'big': lambda i, n: 1000, 'linear': lambda i, n: i+1, 'geometric': lambda i, n: 2**min (i, 50),
        'mixed': lambda i, n: (i*i*7) % 23 + 1, 'steep': lambda i, n: 10**6 if i == 0 else i+1,
        }
    def cases (self, tier):
        for n in (3, 4, 5, 6) if tier == 'quick' else (3, 4, 5, 6, 8, 10, 12):
            for s in self.SHAPES:
                yield (n, s)

    def triads (self, n, shape):
        keys = [(frozenset (), k) for k in self.KEYS[:n]]
        return {t: self.SHAPES[shape] (i, n) for i, t in enumerate (itertools.product (keys, repeat=3))}

    def check (self, case, rec):
        n, shape = case
        name = 'ar-lulua'
        t = self.triads (n, shape)
        data, c = make (name, triads=t)
        with World () as world:
            k, out, x, y = checkEffortData (world, name, data, t, f'{n} keys, {shape}')
            rec.step (k)
            rec.trace ()
            rec.state (case)

class Plot (Suite):
    name = 'plot'
    bounds = 'curves of 1 to 16 layouts in one plot'
    def cases (self, tier):
        yield from range (1, 17)

    def check (self, n, rec):
        curve = Curve ()
        stream, want = b'', {}
        shapes = list (curve.SHAPES)
        with World () as world:
            for i, name in enumerate ([*kit.layoutNames (), *LAYOUTS, 'every'][:n]):
                real, lay = load (name)
                keys = [k for k in lay.text if not k[0] and k[1] in R.MODELS['mod01'].base][:3+i % 3]
                t = {q: curve.SHAPES[shapes[i % len (shapes)]] (j, 0) for j, q in enumerate (itertools.product (keys, repeat=3))}
                data, c = make (name, triads=t)
                k, out, x, y = checkEffortData (world, name, data, t, f'{name}')
                stream += out
                want[name if name in LAYOUTS or name == 'every' else kit.dataFile ('layouts', name)['name']] = (x, y)
                rec.step (k)
            doc = json.loads (world.run ('ar-lulua', ['triadeffortplot'], stream))
        # models may be referenced by their id
        models = {d['id']: d for d in columns (doc) if 'id' in d and 'attributes' in d}
        found = {}
        for d in models.values ():
            at = d['attributes']
            if isinstance (at, dict) and at.get ('name') in want and 'data_source' in at:
                src = models[at['data_source']['id']]['attributes']['data']
                src = next (columns (src))
                need (at['name'] not in found, f'{n} layouts: {at["name"]} drawn twice')
                found[at['name']] = plain (src['x']), plain (src['y'])
        same (found, want, f'{n} layouts: plotted curves')
        rec.step (n)
        rec.trace ()
        rec.state (n)

class Pretty (Suite):
    name = 'summary'
    bounds = 'all texts of up to 4 (thorough 5) of 6 strings including unknown characters, printed summary and all other commands'
    POOL = [ALEF, '\u0628', ALEF+HA, ' ', '?', 'c']
    def cases (self, tier):
        for pre in words (range (len (self.POOL)), 2):
            yield (4 if tier == 'quick' else 5, pre)

    def check (self, case, rec):
        n, pre = case
        with World () as world:
            for t in words (range (len (self.POOL)), 0 if len (pre) < 2 else n-2):
                text = ''.join (self.POOL[i] for i in pre + t)
                data, c = fromText ('rich', text)
                what = f'text {text!r}'
                rec.step (checkPretty (world, 'rich', data, c, what))
                rec.step (checkHeatmap (world, 'rich', data, c, what))
                rec.step (checkLayoutstats (world, 'rich', data, c, what))
                rec.step (checkLatinime (world, 'rich', data, c, what))
                rec.step (checkCorpusstats (world, 'rich', data, c, what, dict (name='x')))
                rec.trace (5)
                rec.state (text)

class Many (Suite):
    name = 'many'
    bounds = '12000 (thorough 120000) distinct words; 8**3 and 14**3 (thorough 20**3) distinct triads, all sort orders, three cutoffs; every combination of every shipped layout, and of one which uses every key of the keyboard, at once'
    def cases (self, tier):
        for n in (12000, ) if tier == 'quick' else (12000, 120000):
            yield ('words', n)
        for n in (8, 14) if tier == 'quick' else (8, 14, 20):
            for sort, cutoff in itertools.product (('weight', 'effort', 'combined'), (0.5, 0.95, 1.0)):
                yield ('triads', n, sort, cutoff)
        for name in [*kit.layoutNames (), 'every']:
            yield ('all', name)

    def check (self, case, rec):
        with World () as world:
            rec.state (case)
            rec.trace ()
            if case[0] == 'words':
                letters = [chr (x) for x in range (0x628, 0x63b)]
                w = {}
                for i, t in enumerate (itertools.product (letters, repeat=4)):
                    if i == case[1]:
                        break
                    w[''.join (t)] = 1 + (i*i % 1009)*(i % 7)
                real, lay = load ('rich')
                data, c = make ('rich', {lay.strings[ALEF][0]: 5}, words=w)
                c.words.update (w)
                rec.step (checkLatinime (world, 'rich', data, c, 'many words'))
                rec.step (checkCorpusstats (world, 'rich', data, c, 'many words', dict (name='x')))
            elif case[0] == 'triads':
                kind, n, sort, cutoff = case
                real, lay = kit.shipped ('ar-lulua')
                keys = [k for k in lay.text if all (b in R.MODELS['mod01'].base for b in [*k[0], k[1]])][:n]
                t = {q: 1 + (i*i*7) % 1013 for i, q in enumerate (itertools.product (keys, repeat=3))}
                data, c = make ('ar-lulua', triads=t)
                rec.step (checkTriadfreq (world, 'ar-lulua', data, t, f'{len (t)} triads', cutoff, sort, cutoff < 0.6, limits=(100, )))
            else:
                name = case[1]
                real, lay = load (name)
                combs = {k: 3 + (i*i) % 101 for i, k in enumerate (lay.text)}
                data, c = make (name, combs)
                rec.step (checkHeatmap (world, name, data, c, f'{name} all'))
                rec.step (checkLayoutstats (world, name, data, c, f'{name} all'))
                rec.step (checkLetterfreq (world, name, data, c, f'{name} all'))

SUITES = [Many (), Combinations (), OtherLetters (), Shipped (), Large (), Words (), Triads (), Curve (), Plot (), Pretty ()]
