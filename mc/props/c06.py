""" C06: stored statistics in other processes """
import itertools, os, pickle, sys, traceback
import yaml
from .. import core
from ..core import Suite, Violation, HarnessError, need, same
# import everything, but load no keyboard: every process starts without any button
from .. import kit, ref
from lulua import keyboard as K, layout as L, stats as S, writer as W

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of load/read orders in a writing and a reading process (real forked processes starting without any button), checking the meaning of the exchanged pickles'
RULE = 'a case is (load order of the writer, load order of the reader with the position of the read); all orders of all subsets of four keyboards are enumerated'

def keyboards ():
    """ four keyboards: the real one, one with reversed rows and sides swapped
    (same names in another order), one that shares only some names and one
    with additional names first """
    base = kit.dataFile ('keyboards', 'ibmpc105')
    a = kit.dataFile ('keyboards', 'ibmpc105')
    rev = kit.dataFile ('keyboards', 'ibmpc105')
    rev['name'] = 'rev'
    rev['rows'] = [[list (reversed (r)), list (reversed (l))] for l, r in reversed (rev['rows'])]
    part = dict (name='part', description='', rows=[[[dict (name='Zz1'), dict (name='Dr3', kind='letter')], [dict (name='Zz2', width=2)]],
        [[dict (name='Dl1', kind='letter', isMarked=True), dict (name='CD_ret', kind='multi', span=2)], [dict (name='Er_shift'), dict (name='Zz3', kind='multi', span=3)]]])
    more = kit.dataFile ('keyboards', 'ibmpc105')
    more['name'] = 'more'
    more['rows'][0][0][0:0] = [dict (name=f'New{i}', kind='letter', scancode=dict (windows=[1, i], xorg=i)) for i in range (3)]
    more['rows'][4][1].append (dict (name='New9'))
    return dict (ibmpc105=base, rev=rev, part=part, more=more)

DATA = pickle.dumps (keyboards ())
def load (name):
    return K.PhysicalKeyboard.deserialize (pickle.loads (DATA)[name])

LAYERS = [
    ([[]], {'Dl1': '\u0628', 'Dl4': '\u064e', 'Dr3': '\u062b', 'Fl_space': ' ', 'Fr_space': ' ', 'CD_ret': '\n'}),
    ([['El_shift'], ['Er_shift']], {'Dl1': '\u062c', 'CD_ret': 'n'}),
    ([['Er_shift', 'Fr_altgr']], {'Dr3': 'r'}),
    ([['Er_shift', 'Fr_altgr', 'El_shift']], {'Dr3': 's'}),
    ([['Er_shift', 'Fr_altgr', 'El_shift', 'Dl1', 'Dl4']], {'Dr3': 't', 'CD_ret': 'u'}),
    ]
PART = [([[]], {'Dl1': '\u0628', 'Dr3': '\u062b', 'CD_ret': '\n', 'Zz3': 'z'}), ([['Er_shift']], {'Dl1': '\u062c', 'Zz1': 'y'}), ([['Zz1', 'Zz2', 'Zz3'], ['Er_shift', 'Zz1', 'Zz2', 'Zz3']], {'Dl1': 'w'})]
TEXT = '\u0628\u062b\u062c\u0628 \u064estunr\u0628\u062cx\n\u062b\u062b\u0628 '

def layersFor (name):
    return PART if name == 'part' else LAYERS

def inChild (func):
    """ Run func in a forked process, return its (plain) result """
    r, w = os.pipe ()
    pid = os.fork ()
    if pid == 0:
        try:
            os.close (r)
            try:
                res = ('ok', func ())
            except Violation as e:
                res = ('viol', str (e))
            except BaseException as e:
                kind = 'viol' if core.inLulua (e) else 'err'
                res = (kind, ''.join (traceback.format_exception (type (e), e, e.__traceback__)))
            with os.fdopen (w, 'wb') as fd:
                fd.write (pickle.dumps (res))
        finally:
            os._exit (0)
    os.close (w)
    with os.fdopen (r, 'rb') as fd:
        data = fd.read ()
    os.waitpid (pid, 0)
    if not data:
        raise HarnessError ('child died')
    kind, val = pickle.loads (data)
    if kind == 'viol':
        raise Violation (val)
    if kind == 'err':
        raise HarnessError (val)
    return val

def btnPlain (b):
    return (type (b).__name__, b.name, b.width, b.isMarked, getattr (b, 'span', None), b.scancode)

def write (order, use):
    """ runs in the writing process """
    kbds = {n: load (n) for n in order}
    kbd = kbds[use]
    layers = layersFor (use)
    data = dict (name='lay', layout=[dict (modifier=[list (m) for m in mods], layer=dict (lay)) for mods, lay in layers])
    layout = L.GenericLayout.deserialize (data).specialize (kbd)
    w = W.Writer (layout)
    ev, _ = ref.typeText (ref.Layout (layers), TEXT)
    if use == 'part':
        # no space bars, thus no triads
        st = {'simple': S.SimpleStats (w)}
    else:
        st = kit.freshStats (w)
    for e in ev:
        # Zz* are not assigned to fingers
        for s in st.values ():
            s.process (kit.eventReal (e, kbd))
    combs = [L.ButtonCombination (frozenset (kbd[x] for x in m), frozenset ([kbd[b]])) for m, b in ref.Layout (layers).text]
    buttons = list (kbd.keys ())
    out = []
    for proto in (pickle.HIGHEST_PROTOCOL, 2):
        out.append ((pickle.dumps (st, proto), pickle.dumps (combs, proto), pickle.dumps (buttons, proto), pickle.dumps (layout, proto)))
    return out

def read (order, pos, use, payload):
    """ runs in the reading process """
    kbds = {}
    steps = 0
    for n in order[:pos]:
        kbds[n] = load (n)
    rst, rcombs, rbtns, rlayout = map (pickle.loads, payload)
    for n in order[pos:]:
        kbds[n] = load (n)
    layers = layersFor (use)
    lay = ref.Layout (layers)
    ev, _ = ref.typeText (lay, TEXT)
    want = ref.count (ev)
    slots = kit.KINDS['simple'] if use == 'part' else ref.Counts.__slots__
    d = kit.diff (kit.countsOf (rst), want, slots)
    need (d is None, lambda: f'statistics: {d}')
    same ([kit.combName (c) for c in rcombs], list (lay.text), 'combinations')
    plain = pickle.loads (DATA)[use]
    names = [b['name'] for l, r in plain['rows'] for b in l+r]
    same ([b.name for b in rbtns], names, 'buttons')
    # attributes survive as well
    spec = {b['name']: b for l, r in plain['rows'] for b in l+r}
    for b in rbtns:
        p = spec[b.name]
        same ((b.width, b.isMarked, getattr (b, 'span', None), isinstance (b, K.LetterButton)),
                (p.get ('width', 1), p.get ('isMarked', False), p.get ('span'), p.get ('kind') == 'letter'), f'attributes of {b.name}')
        sc = p.get ('scancode')
        if sc:
            same (dict (b.scancode), dict (sc, windows=tuple (sc['windows'])), f'scancodes of {b.name}')
        steps += 1
    # names are injective
    for b in rbtns:
        for c in rbtns:
            need ((b == c) == (b.name == c.name), lambda: f'{b.name} and {c.name} compare {b == c}')
    for n, kbd in kbds.items ():
        own = {b.name: b for b in kbd.keys ()}
        for b in rbtns:
            for o in own.values ():
                if (b == o) != (b.name == o.name) or (b.name == o.name and hash (b) != hash (o)):
                    raise Violation (f'loaded button {b.name} and own button {o.name} of {n}: equal {b == o}')
            if b.name in own:
                need (kbd.find (b.name) == b and kbd[b.name].name == b.name, f'{b.name} not found')
                need (kbd.getRow (b) == kbd.getRow (own[b.name]), lambda: f'row of {b.name}')
            steps += 1
        if all (x in own for m, b in lay.text for x in list (m) + [b]):
            mine = [L.ButtonCombination (frozenset (own[x] for x in m), frozenset ([own[b]])) for m, b in lay.text]
            for a, b in itertools.product (mine, rcombs):
                eq = kit.combName (a) == kit.combName (b)
                if (a == b) != eq or (eq and hash (a) != hash (b)):
                    raise Violation (f'own {kit.combName (a)} and loaded {kit.combName (b)} compare {a == b}')
            table = {c: kit.combName (c) for c in mine}
            for c in rcombs:
                same (table.get (c), kit.combName (c), f'looking up loaded {kit.combName (c)}')
            data = dict (name='lay', layout=[dict (modifier=[list (m) for m in mods], layer=dict (l)) for mods, l in layers])
            layout = L.GenericLayout.deserialize (data).specialize (kbd)
            for c in rcombs:
                same (layout.getText (c), lay.text[kit.combName (c)], f'text of loaded {kit.combName (c)} in own layout')
            for c in mine:
                same (rlayout.getText (c), lay.text[kit.combName (c)], f'text of own {kit.combName (c)} in loaded layout')
            need (rlayout == layout and layout == rlayout, 'loaded layout is not equal')
            # merging own statistics with loaded ones
            w = W.Writer (layout)
            st = kit.freshStats (w) if use != 'part' else {'simple': S.SimpleStats (w)}
            for e in ev:
                for s in st.values ():
                    s.process (kit.eventReal (e, kbd))
            for k in st:
                need (st[k] == rst[k] and rst[k] == st[k], f'{k}: loaded and own statistics of the same text are unequal')
                st[k].update (rst[k])
            twice = want.copy ().add (want)
            d = kit.diff (kit.countsOf (st), twice, slots)
            need (d is None, lambda: f'own statistics merged with loaded ones: {d}')
            steps += 1
    for s, cs in lay.strings.items ():
        match, combs = rlayout (s)
        same ((match, {kit.combName (c) for c in combs}), (s, set (cs)), f'lookup of {s!r} in loaded layout')
        steps += 1
    return steps

class Exchange (Suite):
    name = 'process-exchange'
    bounds = 'writer: all orders of all subsets of 4 keyboards containing the one used; reader: all orders of all subsets of up to 2 (thorough 4) keyboards, read before, between or after loading; pickle protocols 2 and highest'
    names = ('ibmpc105', 'rev', 'part', 'more')
    def orders (self, n):
        for k in range (n+1):
            yield from itertools.permutations (self.names, k)

    def cases (self, tier):
        for wo in self.orders (4):
            # the reader orders are explored inside
            for use in wo:
                if use in ('ibmpc105', 'part') or tier == 'thorough':
                    if tier == 'thorough' or len (wo) <= 3:
                        yield (tier, wo, use)

    def check (self, case, rec):
        tier, wo, use = case
        payload = inChild (lambda: write (wo, use))
        for ro in self.orders (2 if tier == 'quick' else 4):
            for pos in range (len (ro)+1):
                for i, p in enumerate (payload):
                    if i > 0 and len (ro) > 1:
                        continue
                    rec.step (inChild (lambda: read (ro, pos, use, p)))
                    rec.trace ()
                    rec.state ((wo, use, ro, pos, i))
        rec.sample (f'writer loads {wo}, uses {use}')

class Identity (Suite):
    name = 'identity'
    bounds = 'all sequences of up to 5 creations of buttons with 3 names and 3 classes'
    def cases (self, tier):
        yield from itertools.product (range (3), repeat=3)

    def check (self, case, rec):
        kinds = [lambda n: K.Button (n), lambda n: K.LetterButton (n, isMarked=True), lambda n: K.MultiRowButton (n, span=2, width=3)]
        for k in itertools.product (range (3), repeat=2):
            for extra in itertools.product (range (3), repeat=2):
                names = case + extra
                bs = [kinds[k[i % 2]] (f'id-{n}') for i, n in enumerate (names)]
                for i, a in enumerate (bs):
                    same (a.name, f'id-{names[i]}', 'name')
                    for j, b in enumerate (bs):
                        if (a == b) != (names[i] == names[j]) or (a == b and hash (a) != hash (b)):
                            raise Violation (f'{a} and {b}: equal {a == b}')
                        rec.step ()
                same (len (set (bs)), len (set (names)), 'number of distinct buttons')
                rec.trace ()
        rec.state (case)

class ManyNames (Suite):
    name = 'many-names'
    bounds = '70000 (thorough 300000) buttons with different names of up to 60 characters in one process, every one created twice: equal and hashing alike exactly if the names are, found by name in dictionaries, same after pickling in another process which knew other names before'
    def cases (self, tier):
        yield 70000 if tier == 'quick' else 300000

    def check (self, n, rec):
        def child ():
            names = [f'many-{i}' + '-long'*(i % 11) for i in range (n)]
            a = [K.Button (x) for x in names]
            # equal, but other objects
            b = [K.LetterButton (''.join (list (x))) for x in reversed (names)][::-1]
            need (len (set (a)) == n, lambda: f'{n} names make {len (set (a))} buttons')
            table = dict (zip (a, names))
            for x, y, z in zip (a, b, names):
                if x != y or hash (x) != hash (y) or x.name != z or y.name != z or table.get (y) != z:
                    raise Violation (f'{n} names: buttons named {z}')
            return pickle.dumps (a[::n//500] + b[-3:]), names[::n//500] + names[-3:]
        data, names = inChild (child)
        def reader ():
            K.Button ('other')
            own = [K.Button (x) for x in reversed (names)][::-1]
            got = pickle.loads (data)
            same ([x.name for x in got], names, 'names after pickling')
            need (got == own and set (got) == set (own), 'buttons of another process differ')
        inChild (reader)
        rec.step (2*n)
        rec.trace ()
        rec.state (n)

SUITES = [ManyNames (), Exchange (), Identity ()]
