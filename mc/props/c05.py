""" C05: merging statistics """
import io, itertools, pickle
from .. import kit, ref, core
from ..core import Suite, Violation, need, same, words, cli
from lulua import writer as W, stats as S, keyboard as K

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operation histories (process, merge, pickle) on several statistics objects and of partitions/orders of stored results, compared with exact counter arithmetic'
RULE = 'a case is a history prefix; all continuations up to the depth bound; states are the counts of all objects'

LAYERS = [
    ([[]], {'Dl1': '\u0628', 'Dl4': '\u064e', 'Dr3': '\u062b', 'Fl_space': ' ', 'Fr_space': ' '}),
    ([['El_shift'], ['Er_shift']], {'Dl1': '\u062c'}),
    ]
A = ('comb', '\u0628', (frozenset (), 'Dl1'))
B = ('comb', '\u064e', (frozenset (), 'Dl4'))
C = ('comb', '\u062b', (frozenset (), 'Dr3'))
D = ('comb', '\u062c', (frozenset (['Er_shift']), 'Dl1'))
SP = ('comb', ' ', (frozenset (), 'Fl_space'))
X = ('skip', 'x')
Y = ('skip', 'y')
# event sequences giving every kind of count, some sharing keys, some not
TEXTS = [
    (A, B, C, SP, X),
    (A, A, B, C, SP, A, B, C, SP, Y),
    (C, C, D, SP, X, X),
    (D, B, D, SP, C),
    ]

def writer ():
    real, lay = kit.build (LAYERS)
    return W.Writer (real)

class Obj:
    """ real statistics and its model: a multiset of already counted texts and
    the events of the text being typed """
    def __init__ (self, w):
        self.real = kit.freshStats (w)
        self.base = ref.Counts ()
        self.events = ()

    def counts (self):
        return self.base.copy ().add (ref.count (self.events))

class Histories (Suite):
    name = 'histories'
    bounds = 'three objects (one of them the empty object of makeCombined); all histories of up to 4 (thorough 5) operations: type one of 3 texts into an object, merge any object into any other, replace an object by its pickled copy'
    def ops (self):
        for i in range (3):
            for t in range (3):
                yield ('type', i, t)
            for j in range (3):
                if i != j:
                    yield ('merge', i, j)
        yield ('pickle', 0)
        yield ('pickle', 2)

    def cases (self, tier):
        n = 4 if tier == 'quick' else 5
        for pre in itertools.product (list (self.ops ()), repeat=2):
            yield (n, pre)

    def check (self, case, rec):
        n, pre = case
        w = writer ()
        ops = list (self.ops ())
        real = {e: kit.eventReal (e) for t in TEXTS for e in t}
        texts = TEXTS[:3]
        for t in words (ops, n-2):
            hist = tuple (map (tuple, pre)) + t
            objs = [Obj (w), Obj (w), Obj (w)]
            objs[2].real = S.makeCombined (kit.keyboard ())
            # the combined object has a writer for another layout
            if any (o[0] == 'type' and o[1] == 2 for o in hist):
                objs[2] = Obj (w)
            for op in hist:
                o = objs[op[1]]
                if op[0] == 'type':
                    for e in texts[op[2]]:
                        for s in o.real.values ():
                            s.process (real[e])
                    o.events += texts[op[2]]
                elif op[0] == 'merge':
                    src = objs[op[2]]
                    for k in o.real:
                        o.real[k].update (src.real[k])
                    o.base.add (src.counts ())
                elif op[0] == 'pickle':
                    o.real = pickle.loads (pickle.dumps (o.real, pickle.HIGHEST_PROTOCOL))
                rec.step ()
            want = [o.counts () for o in objs]
            for i, o in enumerate (objs):
                d = kit.diff (kit.countsOf (o.real), want[i])
                if d:
                    raise Violation (f'object {i} after {hist}: {d}')
            for i in range (3):
                for j in range (3):
                    for k, slots in kit.KINDS.items ():
                        eq = all (dict (getattr (want[i], s)) == dict (getattr (want[j], s)) for s in slots)
                        if (objs[i].real[k] == objs[j].real[k]) != eq or (objs[i].real[k] != objs[j].real[k]) == eq:
                            raise Violation (f'{k} of objects {i} and {j} compare {"un" if eq else ""}equal after {hist}')
            rec.trace ()
            rec.state (repr ([sorted (map (repr, c.dump ().items ())) for c in want]))

class Equality (Suite):
    name = 'equality'
    bounds = 'all pairs of event sequences up to length 3 (thorough 4) over 6 events: statistics are equal exactly if all their counts are'
    EV = (A, B, C, D, SP, X)
    def cases (self, tier):
        n = 3 if tier == 'quick' else 4
        for i in range (sum (6**k for k in range (n+1))):
            yield (n, i)

    def table (self, n, _cache={}):
        if n not in _cache:
            w = writer ()
            real = {e: kit.eventReal (e) for e in self.EV}
            out = []
            for seq in words (self.EV, n):
                st = kit.freshStats (w)
                for e in seq:
                    for s in st.values ():
                        s.process (real[e])
                d = ref.count (seq).dump ()
                out.append ((seq, st, {k: {s: d[s] for s in slots} for k, slots in kit.KINDS.items ()}))
            _cache[n] = out
        return _cache[n]

    def check (self, case, rec):
        n, i = case
        tbl = self.table (n)
        sa, a, da = tbl[i]
        for sb, b, db in tbl:
            for k in kit.KINDS:
                if (a[k] == b[k]) != (da[k] == db[k]):
                    raise Violation (f'{k}: {sa} and {sb} compare {"equal" if a[k] == b[k] else "unequal"}')
            rec.step ()
        rec.trace ()
        rec.state (sa)

class Single (Suite):
    """ one extra count of one kind must be noticed """
    name = 'equality-single-kind'
    bounds = 'every kind of count, every single entry changed by one and every count moved between two entries, on top of every base text'
    def cases (self, tier):
        for t in range (len (TEXTS)):
            yield t

    def check (self, t, rec):
        w = writer ()
        def mk ():
            st = kit.freshStats (w)
            for e in TEXTS[t]:
                for s in st.values ():
                    s.process (kit.eventReal (e))
            return st
        tables = [('simple', 'buttons'), ('simple', 'combinations'), ('simple', 'unknown'), ('triads', 'triads'), ('words', 'words'),
                ('runlen', 'perHandRunlenDist'), ('runlen', 'fingerRunlenDist')]
        base = mk ()
        for kind, attr in tables:
            d = getattr (base[kind], attr)
            entries = [(k, kk) for k, v in d.items () for kk in list (v) + [77]] if kind == 'runlen' else [(k, None) for k in d]
            for k, kk in entries:
                o = mk ()
                need (o[kind] == base[kind], f'{kind}: not equal to itself')
                x = getattr (o[kind], attr)
                if kk is None:
                    x[k] += 1
                else:
                    x[k][kk] += 1
                need (not (o[kind] == base[kind]) and not (base[kind] == o[kind]), lambda: f'{kind}.{attr}: {k} {kk} differs, but compares equal')
                # ... and must be merged
                m = mk ()
                m[kind].update (o[kind])
                g, want = kit.countsOf ({kind: m[kind]}), kit.countsOf ({kind: base[kind]}).add (kit.countsOf ({kind: o[kind]}))
                df = kit.diff (g, want)
                need (df is None, lambda: f'merging {kind}: {df}')
                rec.step ()
            # same keys and same total, one count moved from one entry to another
            def bump (o, key, n):
                x = getattr (o[kind], attr)
                if key[1] is None:
                    x[key[0]] += n
                else:
                    x[key[0]][key[1]] += n
            for src, dst in itertools.permutations (entries, 2):
                a, b = mk (), mk ()
                for e in entries:
                    bump (a, e, 3)
                    bump (b, e, 3)
                need (a[kind] == b[kind], lambda: f'{kind}.{attr}: equal counts compare unequal')
                bump (b, src, -1)
                bump (b, dst, 1)
                need (not (a[kind] == b[kind]) and a[kind] != b[kind], lambda: f'{kind}.{attr}: moving a count from {src} to {dst} is not noticed')
                rec.step ()
            rec.trace ()
            rec.state ((t, kind, attr))

class Combine (Suite):
    name = 'combine-command'
    bounds = 'lulua-analyze combine: all ways to distribute 4 (thorough 5) texts over an ordered list of stored results (including empty results and no result at all), and combining the combinations again; all streams of up to 4 (thorough 6) stored results out of 3, the same one several times included'
    def cases (self, tier):
        n = 4 if tier == 'quick' else 5
        # weak orderings: assignment of each text to a result slot
        for assign in itertools.product (range (n), repeat=n):
            yield ('assign', assign)
        yield ('none', ())
        for first in range (3):
            yield ('repeat', (first, n if tier == 'quick' else n+1))

    def repeated (self, first, n, rec):
        w = writer ()
        stored = []
        for t in ((), TEXTS[0], TEXTS[1]):
            st = kit.freshStats (w)
            for e in t:
                for s in st.values ():
                    s.process (kit.eventReal (e))
            stored.append ((pickle.dumps (st, pickle.HIGHEST_PROTOCOL), ref.count (t)))
        for rest in words (range (3), n-1):
            ids = (first, ) + rest
            total = ref.Counts ()
            for i in ids:
                total.add (stored[i][1])
            got = pickle.loads (cli (S.main, ['combine'], stdin=b''.join (stored[i][0] for i in ids)).out)
            d = kit.diff (kit.countsOf (got), total)
            if d:
                raise Violation (f'combine of results {ids}: {d}')
            rec.step (len (ids))
            rec.trace ()
            rec.state (('repeat', ids))

    def check (self, case, rec):
        kind, assign = case
        if kind == 'repeat':
            return self.repeated (*assign, rec)
        w = writer ()
        texts = list (TEXTS) + [(SP, A, A, A, B, SP, Y)]
        total = ref.Counts ()
        stream = b''
        kbd = kit.keyboard ()
        if assign:
            slots = [S.makeCombined (kbd) for _ in assign]
            for t, a in enumerate (assign):
                st = kit.freshStats (w)
                for e in texts[t]:
                    for s in st.values ():
                        s.process (kit.eventReal (e))
                for k in st:
                    slots[a][k].update (st[k])
                total.add (ref.count (texts[t]))
            parts = [pickle.dumps (s, pickle.HIGHEST_PROTOCOL) for s in slots]
            stream = b''.join (parts)
        r = cli (S.main, ['combine'], stdin=stream)
        got = pickle.loads (r.out)
        d = kit.diff (kit.countsOf (got), total)
        if d:
            raise Violation (f'combine of {assign}: {d}')
        rec.step (len (assign)+1)
        rec.trace ()
        rec.state (assign)
        if assign and assign[0] == 0:
            # group: combine(combine(head), combine(tail))
            for cut in range (len (parts)):
                a = cli (S.main, ['combine'], stdin=b''.join (parts[:cut])).out
                b = cli (S.main, ['combine'], stdin=b''.join (parts[cut:])).out
                for x in (a+b, b+a):
                    g = pickle.loads (cli (S.main, ['combine'], stdin=x).out)
                    d = kit.diff (kit.countsOf (g), total)
                    if d:
                        raise Violation (f'combine of groups {assign} cut at {cut}: {d}')
                    for k in g:
                        need (g[k] == got[k], f'{k}: grouped result compares unequal ({assign}, {cut})')
                    rec.step (3)
                    rec.trace ()

class Partial (Suite):
    name = 'combine-partial'
    bounds = 'lulua-analyze combine: all ordered pairs (and every one alone) of stored results of all event sequences up to length 2 over 6 events, i.e. most without words, triads, runs, presses or unknown characters'
    EVENTS = (A, B, C, D, SP, X)
    def cases (self, tier):
        yield from words (range (6), 2)

    def check (self, first, rec):
        w = writer ()
        def stored (ids):
            t = [self.EVENTS[i] for i in ids]
            st = kit.freshStats (w)
            for e in t:
                for s in st.values ():
                    s.process (kit.eventReal (e))
            return pickle.dumps (st, pickle.HIGHEST_PROTOCOL), ref.count (t)
        a = stored (first)
        for second in [None] + list (words (range (6), 2)):
            parts = [a] + ([stored (second)] if second is not None else [])
            total = ref.Counts ()
            for _, c in parts:
                total.add (c)
            got = pickle.loads (cli (S.main, ['combine'], stdin=b''.join (x for x, _ in parts)).out)
            d = kit.diff (kit.countsOf (got), total)
            if d:
                raise Violation (f'combine of {first} and {second}: {d}')
            rec.step (len (parts))
            rec.trace ()
            rec.state ((first, second))

class Splits (Suite):
    name = 'text-splits'
    bounds = 'a corpus of 1..3 texts out of 4, in every order, typed into one object per text and merged in every tree shape'
    def cases (self, tier):
        for n in (1, 2, 3, 4):
            for p in itertools.permutations (range (4), n):
                yield p

    def check (self, p, rec):
        w = writer ()
        def leaf (t):
            st = kit.freshStats (w)
            for e in TEXTS[t]:
                for s in st.values ():
                    s.process (kit.eventReal (e))
            return st
        def trees (items):
            if len (items) == 1:
                yield items[0]
                return
            for i in range (1, len (items)):
                for a in trees (items[:i]):
                    for b in trees (items[i:]):
                        yield (a, b)
        def build (t, leaves):
            if isinstance (t, int):
                return leaves[t]
            a, b = build (t[0], leaves), build (t[1], leaves)
            out = S.makeCombined (kit.keyboard ())
            for x in (a, b):
                for k in out:
                    out[k].update (x[k])
            return out
        want = ref.Counts ()
        for t in p:
            want.add (ref.count (TEXTS[t]))
        for tree in trees (p):
            leaves = {t: leaf (t) for t in p}
            got = build (tree, leaves)
            d = kit.diff (kit.countsOf (got), want)
            if d:
                raise Violation (f'merging as {tree}: {d}')
            for t in p:
                d = kit.diff (kit.countsOf (leaves[t]), ref.count (TEXTS[t]))
                if d:
                    raise Violation (f'merging as {tree} changed source {t}: {d}')
            rec.step (len (p))
            rec.trace ()
            rec.state (tree)

class Large (Suite):
    name = 'large-counts-and-many-entries'
    bounds = 'every kind of count: all pairs of counts out of 1, 255, 2^15, 2^31-1, 2^32, 2^53+1, 2^63, 2^64+1 merged in both orders; statistics with 5000 (thorough 50000) different entries of every kind merged with overlapping, disjoint and empty ones; combine of 1 to 400 (thorough 3000) stored results'
    COUNTS = (1, 255, 2**15, 2**31-1, 2**32, 2**53+1, 2**63, 2**64+1)
    def cases (self, tier):
        for a in self.COUNTS:
            for b in self.COUNTS:
                yield ('counts', a, b)
        n = 5000 if tier == 'quick' else 50000
        for shift in (0, n//2, n, -n//3):
            yield ('entries', n, shift)
        for k in (1, 2, 3, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400) + ((1000, 3000) if tier != 'quick' else ()):
            yield ('results', k, None)

    def fill (self, st, items):
        """ items: [(number, count)], of every kind """
        kbd = kit.keyboard ()
        btns = [b for b in kbd.keys () if b.name in ref.handFinger]
        combs = [kit.combReal ((frozenset (m), b.name)) for m in ((), ('El_shift', ), ('Fr_altgr', )) for b in btns if b.name not in m]
        n = len (combs)
        for i, c in items:
            st['simple'].buttons[btns[i % len (btns)]] += c
            st['simple'].combinations[combs[i % n]] += c
            st['simple'].unknown[chr (0x100+i)] += c
            st['triads'].triads[(combs[i % n], combs[i//n % n], combs[i//n//n % n])] += c
            st['words'].words[f'w{i}'] += c
            hands = list (st['runlen'].perHandRunlenDist)
            for h in hands:
                st['runlen'].perHandRunlenDist[h][i+1] += c
            for f in list (st['runlen'].fingerRunlenDist):
                st['runlen'].fingerRunlenDist[f][i+1] += c
        return st

    def check (self, case, rec):
        kind, a, b = case
        w = writer ()
        def base (items):
            st = kit.freshStats (w)
            for e in TEXTS[1]:
                for s in st.values ():
                    s.process (kit.eventReal (e))
            return self.fill (st, items)
        if kind in ('counts', 'entries'):
            x = base ([(0, a), (1, b)] if kind == 'counts' else [(i, i % 7 + 1) for i in range (a)])
            y = base ([(0, b), (2, a)] if kind == 'counts' else [(i+b, i % 5 + 1) for i in range (a) if i+b >= 0])
            cx, cy = kit.countsOf (x), kit.countsOf (y)
            for p, q, cq in ((x, y, cy), (y, x, cx)):
                m = S.makeCombined (kit.keyboard ())
                for s in (p, q):
                    for k in m:
                        m[k].update (s[k])
                d = kit.diff (kit.countsOf (m), cx.copy ().add (cy))
                need (d is None, lambda: f'{case}: {d}')
                d = kit.diff (kit.countsOf (q), cq)
                need (d is None, lambda: f'{case}: source changed: {d}')
                for k in p:
                    p2 = pickle.loads (pickle.dumps (p[k], pickle.HIGHEST_PROTOCOL))
                    need (p2 == p[k], f'{case}: {k} not equal to its stored copy')
                    need (p[k] != m[k], f'{case}: {k} equals the sum')
                rec.step (2)
                rec.trace ()
        else:
            items = [base ([(i, 1), (3, i)]) for i in range (a)]
            want = ref.Counts ()
            for s in items:
                want.add (kit.countsOf (s))
            r = cli (S.main, ['combine'], stdin=b''.join (pickle.dumps (s, pickle.HIGHEST_PROTOCOL) for s in items))
            d = kit.diff (kit.countsOf (pickle.loads (r.out)), want)
            need (d is None, lambda: f'{case}: {d}')
            rec.step (a)
            rec.trace ()
        rec.state (case)

SUITES = [Large (), Histories (), Equality (), Single (), Combine (), Partial (), Splits ()]
