""" C15: layout optimisation """
import collections, fnmatch, io, itertools, logging, os, pickle, re
import yaml
from .. import kit, ref, core, refeffort as R, rng
from ..core import Suite, Violation, need, same, words, close
from lulua import optimize as O, stats as S, writer as W, layout as L, keyboard as K
from .c12 import model
import tqdm
tqdm.tqdm.monitor_interval = 0

LEVEL = 'model_checking'
TECHNIQUE = 'the optimize command is run with a controlled random number generator whose draws are choice points; all histories of draws up to a depth are enumerated by re-execution over small keyboards, layouts, pins and swaps; after every mutation and restore the incremental effort is compared with an independent recomputation, the emitted layout and energy with the input'
RULE = 'a case is a configuration (layout, triads, options); all random histories within the bounds are run; states are (configuration, emitted assignment)'
ASSUMPTIONS = ['a layer with several modifiers is charged with its first one, as documented in the code',
        'runs in which every key is pinned are not started (no permitted mutation exists, the search never ends)']

def kbd (names):
    """ standard keyboard on which only these buttons are letter buttons (the
    effort model needs the others to exist) """
    full = kit.dataFile ('keyboards', 'ibmpc105')
    for l, r in full['rows']:
        for x in l+r:
            if x['name'] not in names and x.get ('kind') == 'letter':
                del x['kind']
    return full

class Conf:
    """ layers: [(modifiers, {button: text})], triads: {triad: weight} """
    def __init__ (self, name, buttons, layers, triads):
        self.name = name
        self.layers = layers
        self.kbd = kbd (buttons)
        self.triads = triads
        self._input = None
        mods = {m[0] for ms, _ in layers for m in ms if len (m) == 1}
        self.keys = [x['name'] for l, r in self.kbd['rows'] for x in l+r]
        kinds = {x['name']: x.get ('kind', 'standard') for l, r in self.kbd['rows'] for x in l+r}
        self.positions = [(i, k) for i in range (len (layers)) for k in self.keys if kinds[k] == 'letter' and k not in mods]
        self.modToLayer = {frozenset (m): i for i, (ms, _) in enumerate (layers) for m in ms}

    def layoutData (self):
        return dict (name='tiny', layout=[dict (modifier=[list (m) for m in ms], layer=dict (lay)) for ms, lay in self.layers])

    def input (self):
        """ pickled statistics """
        if self._input is None:
            s = S.TriadStats (W.Writer (kit.shipped ('ar-lulua')[0]))
            for t, n in self.triads.items ():
                s.triads[tuple (kit.combReal (c) for c in t)] = n
            self._input = pickle.dumps ({'triads': s})
        return self._input

    def used (self, limit=0):
        t = sorted (self.triads.items (), key=lambda x: -x[1])
        return dict (t[:limit] if limit else t)

    def mapped (self, where, limit=0):
        """ triads after moving, where: (layer, key) -> (layer, key) """
        c = collections.Counter ()
        for t, n in self.used (limit).items ():
            new = []
            for mods, b in t:
                nl, nb = where[(self.modToLayer[mods], b)]
                new.append ((frozenset (self.layers[nl][0][0]), nb))
            c[tuple (new)] += n
        return c

_eff = {}
def total (m, triads):
    n = sum (triads.values ())
    if not n:
        return 0
    s = 0
    for t, w in triads.items ():
        k = (m, t)
        e = _eff.get (k)
        if e is None:
            e = _eff[k] = R.effort (R.MODELS[m], t)
        s += w*e
    return s/n

N = frozenset ()
SH = frozenset (['El_shift'])
SR = frozenset (['Er_shift'])
AG = frozenset (['Fr_altgr'])

# two layers, two letter keys, both shift keys
TWO = Conf ('two-layers', ['Dl1', 'Dr3', 'El_shift', 'Er_shift'],
    [([[]], {'Dl1': 'a', 'Dr3': 'b'}), ([['El_shift'], ['Er_shift']], {'Dl1': 'A', 'Dr3': 'B'})],
    {((N, 'Dl1'), (N, 'Dr3'), (N, 'Dl1')): 5,
     ((SR, 'Dl1'), (N, 'Dr3'), (N, 'Dr3')): 3,
     ((N, 'Dl1'), (SH, 'Dr3'), (SR, 'Dl1')): 2,
     ((SH, 'Dr3'), (SH, 'Dr3'), (SH, 'Dr3')): 1})
# one layer, four keys in different rows, one of them empty, also the space bar
# and a text on it
ONE = Conf ('one-layer', ['Bl2', 'Cr6', 'Dl4', 'El3', 'Fl_space', 'CD_ret'],
    [([[]], {'Bl2': 'x', 'Cr6': 'yy', 'Dl4': 'x', 'Fl_space': ' '})],
    {((N, 'Bl2'), (N, 'Cr6'), (N, 'Dl4')): 7,
     ((N, 'Dl4'), (N, 'Dl4'), (N, 'Bl2')): 4,
     ((N, 'Cr6'), (N, 'Cr6'), (N, 'Cr6')): 4})
# three layers, a letter key as modifier, two-key modifier
THREE = Conf ('three-layers', ['Dl2', 'Cr5', 'El1', 'Fr_altgr', 'El_shift', 'Fl_space'],
    [([[]], {'Dl2': 'p', 'Cr5': 'q', 'Fl_space': ' '}),
     ([['El1'], ['Fr_altgr']], {'Dl2': 'r'}),
     ([['El_shift', 'Fr_altgr'], ['Fl_alt', 'Fl_ctrl', 'Fr_ctrl', 'Er_shift']], {'Cr5': 's', 'Dl2': 'pq'})],
    {((N, 'Dl2'), (N, 'Cr5'), (AG, 'Dl2')): 6,
     ((frozenset (['El_shift', 'Fr_altgr']), 'Cr5'), (N, 'Cr5'), (frozenset (['El1']), 'Dl2')): 3,
     ((frozenset (['El_shift', 'Fr_altgr']), 'Dl2'), (N, 'Dl2'), (N, 'Dl2')): 2,
     ((AG, 'Dl2'), (AG, 'Dl2'), (N, 'Cr5')): 1})
EMPTY = Conf ('no-triads', ['Dl1', 'Dr3', 'El_shift', 'Er_shift'], TWO.layers, {})
CONFS = {c.name: c for c in (TWO, ONE, THREE, EMPTY)}

def pinned (conf, spec):
    """ spec: [(layer, pattern or None)] -> fixed positions, fixed layers """
    pos, lay = set (), set ()
    for l, p in spec:
        if p is None:
            lay.add (l)
        else:
            pos |= {(l, k) for k in conf.keys if fnmatch.fnmatchcase (k, p)}
    return pos, lay

def pinArg (spec):
    return ';'.join (f'{l}' if p is None else f'{l},{p}' for l, p in spec)

def startMap (conf, swaps):
    m = {p: p for p in conf.positions}
    for a, b in swaps:
        m[a], m[b] = m[b], m[a]
    return m

class Monitor:
    """ Observe every mutation of the real optimiser """
    def __init__ (self, conf, opts):
        self.conf, self.opts = conf, opts
        self.mutations = 0
        self.start = self.last = None

    def __enter__ (self):
        mon = self
        self.orig = O.LayoutOptimizer
        class Watched (self.orig):
            def mutate (self, *args, **kwargs):
                withEnergy = kwargs.get ('withEnergy', args[0] if args else True)
                if withEnergy:
                    mon.look (self, 'before a mutation')
                ret = super ().mutate (*args, **kwargs)
                mon.mutations += 1
                if withEnergy:
                    mon.look (self, 'after a mutation')
                    close (ret, mon.last-mon.before, 'energy change of a mutation', tol=1e-6)
                return ret
        O.LayoutOptimizer = Watched
        return self

    def __exit__ (self, *a):
        O.LayoutOptimizer = self.orig
        return False

    def look (self, opt, when):
        current = getattr (getattr (opt, 'state', None), 'buttonMap', None)
        if current is None:
            # kept in another way: only the result can be judged
            self.before, self.last = self.last, opt.energy ()
            return
        where = {(l, b.name): (nl, nb.name) for (l, b), (nl, nb) in current.items ()}
        same (sorted (where), sorted (self.conf.positions), f'positions known {when}')
        same (sorted (where.values ()), sorted (self.conf.positions), f'positions assigned {when}')
        if self.start is None:
            self.start = dict (where)
        want = total (self.opts['model'], self.conf.mapped (where, self.opts['limit']))
        close (opt.energy (), want, f'effort {when} number {self.mutations}', tol=1e-6)
        self.before, self.last = self.last, opt.energy ()
        pos, lay = pinned (self.conf, self.opts['pins'])
        init = startMap (self.conf, self.opts['swaps'])
        for p in pos:
            if p in where:
                same (where[p], init[p], f'pinned key {p} {when}')
        for p, q in where.items ():
            if p[0] in lay:
                # unless explicitly moved elsewhere before
                if init[p][0] == p[0]:
                    same (q[0], p[0], f'layer of {p}, which is pinned to its layer, {when}')

def argsOf (opts, lf, kf):
    argv = ['-l', lf, '-k', kf, '-n', str (opts['steps'])]
    if opts['limit']:
        argv += ['--triad-limit', str (opts['limit'])]
    if opts['pins']:
        argv += ['-p', pinArg (opts['pins'])]
    for (i, a), (j, b) in opts['swaps']:
        argv += ['-s', f'{i},{a}:{j},{b}']
    if opts['randomize']:
        argv += ['-r']
    if opts['model'] != 'mod01':
        argv += ['-m', opts['model']]
    return argv

def options (steps=2, limit=0, pins=(), swaps=(), randomize=False, model='mod01'):
    return dict (steps=steps, limit=limit, pins=[tuple (p) for p in pins], swaps=[tuple (map (tuple, s)) for s in swaps], randomize=randomize, model=model)

def checkOutput (conf, opts, out, mon, rec, what):
    text = out.decode ('utf-8')
    head = dict (re.findall (r'^# ([a-z]+): (.*)$', text, re.M))
    data = yaml.safe_load (text)
    layers = data['layout']
    same (len (layers), len (conf.layers), f'{what}: number of layers')
    pos, lay = pinned (conf, opts['pins'])
    init = startMap (conf, opts['swaps'])
    got = {}
    for i, (l, (ms, orig)) in enumerate (zip (layers, conf.layers)):
        same ([frozenset (m) for m in l['modifier']], [frozenset (m) for m in ms], f'{what}: modifiers of layer {i}')
        for k, v in l['layer'].items ():
            got[(i, k)] = v
    orig = {(i, k): v for i, (ms, lay_) in enumerate (conf.layers) for k, v in lay_.items ()}
    movable = set (conf.positions)
    same ({p: v for p, v in got.items () if p not in movable}, {p: v for p, v in orig.items () if p not in movable}, f'{what}: keys which are not letter keys')
    same (sorted (v for p, v in got.items () if p in movable), sorted (v for p, v in orig.items () if p in movable), f'{what}: strings of the letter keys')
    for p in pos & movable:
        same (got.get (init[p]), orig.get (p), f'{what}: string of pinned key {p}')
    for i in lay:
        if all (init[p][0] == p[0] for p in movable):
            same (sorted (v for p, v in got.items () if p[0] == i), sorted (v for p, v in orig.items () if p[0] == i), f'{what}: strings of layer {i}, which is pinned')
    if not opts['steps'] and not opts['randomize']:
        want = {init.get (p, p): v for p, v in orig.items ()}
        same (got, want, f'{what}: layout without any step')
    # energy of the emitted layout. The same string may be present more than
    # once, any assignment which explains the output counts
    want = []
    for where in explain (conf, orig, got, movable):
        want.append (total (opts['model'], conf.mapped (where, opts['limit'])))
    need ('energy' in head, f'{what}: no energy reported')
    e = float (head['energy'])
    need (any (abs (e-w) <= 1e-6*max (1, abs (w)) for w in want), f'{what}: reported energy {e}, but the emitted layout {got} has {want[:5]}')
    if 'triads' in head:
        same (int (head['triads']), len (conf.used (opts['limit'])), f'{what}: number of triads reported')
    start = None
    if not opts['randomize']:
        start = total (opts['model'], conf.mapped (init, opts['limit']))
    elif mon is not None and mon.start is not None:
        start = total (opts['model'], conf.mapped (mon.start, opts['limit']))
    if start is not None:
        need (e <= start+1e-6, f'{what}: energy {e} is higher than that of the starting layout ({start})')
    rec.outcome ((conf.name, sorted (got.items ())))
    rec.state ((conf.name, repr (opts), sorted (got.items ())))
    return got, e

def explain (conf, orig, got, movable):
    """ All ways to map the used positions so that orig becomes got """
    used = sorted ({(conf.modToLayer[m], b) for t in conf.triads for m, b in t})
    def rec (i, taken, where):
        if i == len (used):
            yield dict (where)
            return
        for q in sorted (movable):
            if q not in taken and got.get (q) == orig[used[i]]:
                where[used[i]] = q
                yield from rec (i+1, taken | {q}, where)
        where.pop (used[i], None)
    yield from rec (0, frozenset (), {})

def execute (conf, opts, script, rec, dirname):
    lf, kf = os.path.join (dirname, 'l.yaml'), os.path.join (dirname, 'k.yaml')
    what = f'{conf.name} {dict (opts)} draws {script.prefix}'
    with Monitor (conf, opts) as mon, rng.Controlled (script):
        try:
            r = core.cli (O.optimize, argsOf (opts, lf, kf), stdin=conf.input ())
        except AssertionError as e:
            raise Violation (f'{what}: own plausibility check failed: {e!r}')
        except rng.Limit:
            raise Violation (f'{what}: does not end')
    need (r.ret in (0, None), f'{what}: exit status {r.ret}, {r.err[-500:]}')
    rec.step (mon.mutations)
    rec.trace ()
    return checkOutput (conf, opts, r.out, mon, rec, what)

def prepare (conf, dirname):
    with open (os.path.join (dirname, 'l.yaml'), 'w') as fd:
        yaml.dump (conf.layoutData (), fd)
    with open (os.path.join (dirname, 'k.yaml'), 'w') as fd:
        yaml.dump (conf.kbd, fd)

class Histories (Suite):
    name = 'random-histories'
    bounds = '4 small layouts, no options: all histories of 5 (thorough 7) draws, later draws cycle; 3 (4) steps, both shipped models'
    def cases (self, tier):
        d, s = (5, 3) if tier == 'quick' else (6, 4)
        for c in CONFS.values ():
            for first in range (len (c.positions)):
                for second in range (len (c.positions)):
                    yield (c.name, options (steps=s, model='mod01'), [first, second], d)

    def check (self, case, rec):
        name, opts, prefix, depth = case
        conf = CONFS[name]
        with core.Scratch () as d:
            prepare (conf, d)
            # first two draws are fixed by the case
            stack = [list (prefix)]
            while stack:
                p = stack.pop ()
                s = rng.Script (p)
                execute (conf, opts, s, rec, d)
                for k in range (len (p), min (depth, len (s.taken))):
                    for v in range (s.sizes[k]):
                        if v != s.taken[k]:
                            stack.append (s.taken[:k] + [v])

class Options (Suite):
    name = 'pins-swaps-limits'
    bounds = 'every layout with every subset of up to two pins (layer pins, single keys, patterns), every pin among up to 22 others, every single and every pair of swaps (thorough: more), triad limits, randomised start: all histories of 2 draws, then cycling; 6 steps'
    PINS = {'two-layers': [(0, None), (1, None), (0, 'Dl1'), (1, 'D*'), (0, '?l*'), (1, 'Dr3')],
            'one-layer': [(0, None), (0, 'Bl2'), (0, 'D*'), (0, '*3'), (0, 'Fl_space'), (0, 'C*')],
            'three-layers': [(0, None), (1, None), (2, None), (0, 'Dl2'), (1, '*'), (2, 'Cr[56]')],
            'no-triads': [(1, None)]}

    def permitted (self, conf, opts):
        """ is there a permitted mutation left, whatever happened before? """
        pos, lay = pinned (conf, opts['pins'])
        free = [p for p in conf.positions if p not in pos]
        init = startMap (conf, opts['swaps'])
        return any (a[0] == b[0] == init[a][0] == init[b][0] for a, b in itertools.combinations (free, 2)) or \
                len ([p for p in free if p[0] not in lay]) > 1

    def cases (self, tier):
        for c in CONFS.values ():
            pins = self.PINS[c.name]
            swaps = list (itertools.product (c.positions, repeat=2))
            sets = [()] + [(p, ) for p in pins] + list (itertools.combinations (pins, 2))
            for p in sets:
                for s in [()] + [(x, ) for x in swaps[::3 if tier == 'quick' else 1]]:
                    o = options (steps=6, pins=p, swaps=s)
                    if self.permitted (c, o):
                        yield (c.name, o, 1 if s and tier == 'quick' else 2)
            for a, b in itertools.product (swaps, repeat=2):
                if a[0] != a[1] and b[0] != b[1] and (tier != 'quick' or len (c.positions) < 6 or a[0] in b):
                    yield (c.name, options (steps=0, swaps=(a, b)), 0)
            for k in range (0, len (c.triads)+2):
                yield (c.name, options (steps=4, limit=k), 2)
            # many pins, most of which do not matter
            idle = tuple ((l, k) for l in range (len (c.layers)) for k in ('Bl1', 'Br6', 'Cl4', 'Dl5', 'Er2', 'Fl_win', 'Fr_altgr'))
            for p in pins:
                for many in ((p, ) + idle, idle + (p, ), idle[:3] + (p, ) + idle[3:] + (p, )):
                    o = options (steps=6, pins=many)
                    if self.permitted (c, o):
                        yield (c.name, o, 2)
            for n in range (0, 3):
                for p in sets[:4]:
                    o = options (steps=n, randomize=True, pins=p)
                    if self.permitted (c, o):
                        yield (c.name, o, 3 if not p else 2)
            for s in swaps[:6]:
                yield (c.name, options (steps=1, randomize=True, swaps=(s, )), 1)

    def check (self, case, rec):
        name, opts, depth = case
        opts = options (**opts)
        conf = CONFS[name]
        with core.Scratch () as d:
            prepare (conf, d)
            rng.histories (lambda s: execute (conf, opts, s, rec, d), depth)

class Ties (Suite):
    name = 'triads-with-equal-weight'
    bounds = 'triad limits over triads with equal weights in all orders: the reported energy must be that of some choice of the most frequent ones'
    def cases (self, tier):
        t = list (TWO.triads)
        for p in itertools.permutations (t):
            for w in ((2, 2, 2, 2), (1, 2, 2, 3), (3, 1, 1, 2)):
                for k in (1, 2, 3):
                    yield ([t.index (x) for x in p], w, k)

    def check (self, case, rec):
        order, w, k = case
        t = list (TWO.triads)
        triads = {t[i]: w[i] for i in order}
        conf = Conf ('ties', ['Dl1', 'Dr3', 'El_shift', 'Er_shift'], TWO.layers, triads)
        with core.Scratch () as d:
            prepare (conf, d)
            r = core.cli (O.optimize, argsOf (options (steps=0, limit=k), os.path.join (d, 'l.yaml'), os.path.join (d, 'k.yaml')), stdin=conf.input ())
        e = float (re.search (r'^# energy: (.*)$', r.out.decode (), re.M).group (1))
        srt = sorted (triads.values (), reverse=True)[:k]
        ok = []
        ident = {p: p for p in conf.positions}
        for sub in itertools.combinations (triads, k):
            if sorted ((triads[x] for x in sub), reverse=True) == srt:
                c = Conf ('x', conf.keys, TWO.layers, {x: triads[x] for x in sub})
                ok.append (total ('mod01', c.mapped (ident)))
        need (any (abs (x-e) < 1e-6 for x in ok), f'limit {k} of {[(i, w[i]) for i in order]}: energy {e}, expected one of {ok}')
        rec.step ()
        rec.trace ()
        rec.state (case)

class Shipped (Suite):
    name = 'shipped-layout'
    bounds = 'the shipped layouts on the standard keyboard (letter keys as modifiers, up to four layers, unused positions), triads of a text with every string of the layout: all histories in which one of the first 3 swaps (thorough 6) is any pair out of 14 positions, others cycle; pins as used by the project'
    def cases (self, tier):
        for n in ('ar-lulua', 'ar-asmo663', 'ar-malas') if tier == 'quick' else kit.layoutNames ():
            for o in (options (steps=3), options (steps=3, pins=[(0, None), (1, None)]), options (steps=2, pins=[(0, 'B*'), (1, 'D*')], randomize=True),
                    options (steps=2, limit=5, swaps=[((0, 'Cl1'), (1, 'Dr5')), ((1, 'Dr5'), (0, 'El3'))])):
                for k in range (3 if tier == 'quick' else 6):
                    for v in range (7):
                        yield (n, o, k, v)

    def check (self, case, rec):
        n, opts, k, v = case
        opts = options (**opts)
        conf = shippedConf (n)
        if any (l >= len (conf.layers) for l, _ in opts['pins']):
            return
        opts['swaps'] = [s for s in opts['swaps'] if all (x in conf.positions for x in s)]
        P = len (conf.positions)
        with core.Scratch () as d:
            prepare (conf, d)
            for w in range (7):
                prefix = [(7*i + 3) % P if i % 2 else (11*i) % P for i in range (2*k)] + [(v*P//7 + 1) % P, (w*P//7 + P//14) % P]
                execute (conf, opts, rng.Script (prefix), rec, d)

_shipped = {}
def shippedConf (n):
    if n not in _shipped:
        data = kit.dataFile ('layouts', n)
        layers = [(l['modifier'], l['layer']) for l in data['layout']]
        lay = ref.Layout (layers)
        triads = collections.Counter ()
        full = kit.dataFile ('keyboards', 'ibmpc105')
        names = [x['name'] for l, r in full['rows'] for x in l+r]
        c = Conf (n, names, layers, {})
        ok = set (c.positions)
        combs = []
        seen = set ()
        for s, cs in lay.strings.items ():
            # only strings with a unique position, so that the output tells
            # where everything went
            if len ({(c.modToLayer[m], b) for m, b in cs}) > 1:
                continue
            for m, b in cs:
                if (c.modToLayer[m], b) in ok and b in R.BUTTONS and m <= set (R.BUTTONS):
                    combs.append ((m, b))
        for i in range (len (combs)):
            for j, w in ((1, 3), (5, 1), (17, 2)):
                triads[(combs[i], combs[(i*j+1) % len (combs)], combs[(i+j) % len (combs)])] += w + i % 4
        # distinct weights, so that the limit is well defined
        c.triads = {t: i+1 for i, (t, n) in enumerate (sorted (triads.items (), key=lambda x: x[1]))}
        _shipped[n] = c
    return _shipped[n]

class Stop (rng.Script):
    """ interrupt at a draw """
    def __init__ (self, prefix, at):
        super ().__init__ (prefix)
        self.at = at

    def pick (self, n):
        if len (self.taken) == self.at:
            raise KeyboardInterrupt ()
        return super ().pick (n)

class Interrupts (Suite):
    name = 'interrupts'
    bounds = 'an interrupt at every random draw of runs of 5 steps, with and without a randomised start, 4 small layouts, 9 beginnings: no layout is emitted and no success reported'
    def cases (self, tier):
        for name in CONFS:
            for r in (False, True):
                yield (name, r)

    def check (self, case, rec):
        name, r = case
        conf = CONFS[name]
        opts = options (steps=5, randomize=r)
        with core.Scratch () as d:
            prepare (conf, d)
            argv = argsOf (opts, os.path.join (d, 'l.yaml'), os.path.join (d, 'k.yaml'))
            for prefix in itertools.product (range (3), repeat=2):
                full = rng.Script (list (prefix))
                with rng.Controlled (full):
                    core.cli (O.optimize, argv, stdin=conf.input ())
                for at in range (len (full.taken)):
                    with rng.Controlled (Stop (list (prefix), at)):
                        try:
                            res = core.cli (O.optimize, argv, stdin=conf.input ())
                        except KeyboardInterrupt:
                            continue
                    need (res.ret not in (0, None), f'{case} {prefix}: interrupted at draw {at}, but reports success')
                    need (b'layout' not in res.out, f'{case} {prefix}: interrupted at draw {at}, but a layout is emitted')
                    rec.step ()
                rec.trace ()
                rec.state ((case, prefix))

class Long (Suite):
    name = 'long-runs'
    bounds = 'runs of 40, 150 and 400 (thorough 1000) steps of small layouts with all beginnings of 3 draws, later ones cycle through all pairs; effort checked at every step, no drift'
    def cases (self, tier):
        for name in CONFS:
            if name != 'no-triads':
                for n in (40, 150, 400) if tier == 'quick' else (40, 150, 400, 1000):
                    for r in (False, True):
                        for first in range (len (CONFS[name].positions)):
                            yield (name, n, r, first)

    def check (self, case, rec):
        name, n, r, first = case
        conf = CONFS[name]
        P = len (conf.positions)
        with core.Scratch () as d:
            prepare (conf, d)
            for rest in itertools.product (range (P), repeat=1 if n > 100 else 2):
                execute (conf, options (steps=n, randomize=r), rng.Script ([first, *rest]), rec, d)

SUITES = [Histories (), Options (), Ties (), Interrupts (), Long (), Shipped ()]
