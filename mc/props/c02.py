""" C02: choice of the combination """
import itertools, io
from .. import kit, ref
from ..core import Suite, need, same, words
from lulua import writer as W, layout as L

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of alternatives x previous combination and of typing histories on the real Writer, against a lexicographic reference choice'
RULE = 'a case is a previous combination (or a history); all ordered lists of distinct alternatives from a universe covering every hand/modifier pattern are offered'
ASSUMPTIONS = ['all alternatives have exactly one main button, like all combinations built by KeyboardLayout']

# every pattern of hands: 0..2 modifiers, main button left/right, several fingers
MODS = [(), ('El_shift', ), ('Er_shift', ), ('Fr_altgr', ), ('El_shift', 'Fr_altgr'), ('Er_shift', 'Fr_altgr'), ('El_shift', 'Dl_caps')]
MAIN = ['Dl1', 'Cl4', 'Dr3', 'Fl_space', 'Fr_space']
UNIVERSE = [(frozenset (m), b) for m in MODS for b in MAIN]

class Direct (Suite):
    name = 'alternatives'
    bounds = 'previous combination: none or any of 35; all ordered lists of 1 to 3 distinct alternatives from 35'
    def cases (self, tier):
        for prev in [None] + UNIVERSE:
            for first in range (len (UNIVERSE)):
                yield (tier, prev and (sorted (prev[0]), prev[1]), first)

    def check (self, case, rec):
        tier, prev, first = case
        layout, _ = kit.build ([([[]], {'Dl1': 'a'})])
        w = W.Writer (layout)
        if prev is not None:
            prev = (frozenset (prev[0]), prev[1])
            w.press (kit.combReal (prev))
        real = [kit.combReal (c) for c in UNIVERSE]
        def lists ():
            yield (first, )
            for b in range (len (UNIVERSE)):
                if b != first:
                    yield (first, b)
                    for c in range (len (UNIVERSE)):
                        if c != b and c != first:
                            yield (first, b, c)
        for idx in lists ():
            got = kit.combName (w.chooseCombination ([real[i] for i in idx]))
            want = ref.choose ([UNIVERSE[i] for i in idx], prev)
            if got != want:
                same (got, want, f'choice among {[UNIVERSE[i] for i in idx]} after {prev}')
            rec.step ()
        rec.trace ()
        rec.state ((prev, first))
        rec.outcome (got)

class ManyButtons (Suite):
    """ more buttons than layouts usually need """
    name = 'many-modifiers'
    bounds = 'modifiers: all subsets of 3 left and 3 right hand buttons (up to 6 at once), main button left and right: all ordered pairs of the 128 alternatives after none and 6 previous combinations, all ordered triples of those with the same number of buttons (thorough)'
    POOL = ['El_shift', 'Fl_ctrl', 'Dl_caps', 'Er_shift', 'Fr_ctrl', 'Fr_altgr']
    def universe (self):
        return [(frozenset (m), b) for n in range (7) for m in itertools.combinations (self.POOL, n) for b in ('Dl1', 'Dr3')]

    def cases (self, tier):
        for i in range (len (self.universe ())):
            yield (tier, i)

    def check (self, case, rec):
        tier, i = case
        u = self.universe ()
        real = [kit.combReal (c) for c in u]
        layout, _ = kit.build ([([[]], {'Dl1': 'a'})])
        for prev in [None, 0, 1, 5, 20, 60, 127]:
            w = W.Writer (layout)
            if prev is not None:
                w.press (real[prev])
            before = None if prev is None else u[prev]
            lists = [(i, j) for j in range (len (u)) if j != i]
            lists += [(i, j, k) for j in range (len (u)) for k in range (len (u)) if len ({i, j, k}) == 3 and len (u[i][0]) == len (u[j][0]) == len (u[k][0])] if tier == 'thorough' and prev in (None, 5) else []
            for idx in lists:
                got = kit.combName (w.chooseCombination ([real[x] for x in idx]))
                want = ref.choose ([u[x] for x in idx], before)
                if got != want:
                    same (got, want, f'choice among {[u[x] for x in idx]} after {before}')
                rec.step ()
            rec.trace ()
            rec.state ((i, prev))

LAY = [
    ([[]], {'Dl1': 'a', 'Dr3': 'a', 'Dl4': 'l', 'Dr6': 'r', 'Fl_space': ' ', 'Fr_space': ' '}),
    ([['El_shift'], ['Er_shift']], {'Dl1': 'A', 'Dr3': 'B', 'Dl2': 'C', 'Dr4': 'C', 'Dl4': 'r', 'Fr_space': 'l'}),
    ([['El_shift', 'Fr_altgr'], ['Er_shift', 'Fr_altgr']], {'Dl1': 'D', 'Dr3': 'D', 'Cl3': 'C'}),
    ]
# the same, alternatives listed the other way around
LAY2 = [(m[::-1], dict (reversed (list (l.items ())))) for m, l in LAY]

class History (Suite):
    name = 'histories'
    bounds = 'two synthetic layouts with 2-6 alternatives per string (orders reversed); all texts up to length 5 (thorough 6) over 9 characters including skipped ones; typed at once, and in two calls at every position'
    def cases (self, tier):
        for i in (0, 1):
            for pre in words ('alr ABCDx', 2, 2):
                yield (i, ''.join (pre), 5 if tier == 'quick' else 6)

    def check (self, case, rec):
        i, pre, n = case
        real, lay = kit.build ([LAY, LAY2][i])
        for t in words ('alr ABCDx', n-2):
            text = pre + ''.join (t)
            want, _ = ref.typeText (lay, text)
            got = kit.realType (real, io.StringIO (text))
            if got != want:
                same (got, want, f'typing {text!r}')
            rec.step (len (got))
            rec.trace ()
            rec.state ((i, text))
            if len (text) <= 4:
                for cut in range (1, len (text)):
                    w, other = W.Writer (real), W.Writer (real)
                    got = kit.realType (real, io.StringIO (text[:cut]), writer=w)
                    # another writer must not matter
                    kit.realType (real, io.StringIO ('rBA'), writer=other)
                    got += kit.realType (real, io.StringIO (text[cut:]), writer=w)
                    if got != want:
                        same (got, want, f'typing {text[:cut]!r}, then {text[cut:]!r}')
                    rec.trace ()

class Shipped (Suite):
    name = 'shipped'
    bounds = 'every shipped layout: all ordered pairs (previous combination of any kind typed by writing any of its strings, string with several alternatives), with and without a skipped character in between, plus all triples of representative strings'
    def cases (self, tier):
        for name in kit.layoutNames ():
            real, lay = kit.shipped (name)
            for s in lay.strings:
                yield (name, s)

    def check (self, case, rec):
        name, s = case
        real, lay = kit.shipped (name)
        multi = [x for x, c in lay.strings.items () if len (c) > 1]
        # representatives: one string per set of (hand, number of keys)
        seen = {}
        for x, c in lay.strings.items ():
            seen.setdefault (tuple (sorted ((ref.hand (b), len (m)) for m, b in c)), x)
        reps = list (seen.values ())
        def texts ():
            for x in multi:
                yield s + x
                yield s + '\ufffd' + x
            for x in reps:
                for y in reps:
                    yield x + s + y
        for text in texts ():
            want, _ = ref.typeText (lay, text)
            got = kit.realType (real, io.StringIO (text))
            if got != want:
                same (got, want, f'{name}: typing {text!r}')
            rec.step (len (got))
            rec.trace ()
            rec.state ((name, text))

class Fingers (Suite):
    name = 'fingers'
    bounds = 'every button of every packaged keyboard'
    def cases (self, tier):
        yield from ['ibmpc105']

    def check (self, case, rec):
        layout, _ = kit.build ([([[]], {'Dl1': 'a'})])
        w = W.Writer (layout)
        seen = set ()
        for l, r in kit.keyboard (case).rows:
            for side, half in ((ref.LEFT, l), (ref.RIGHT, r)):
                for b in half:
                    h, f = w.getHandFinger (b)
                    same (kit.SIDE[h], side, f'hand of {b.name}')
                    same ((kit.SIDE[h], int (f)), ref.handFinger[b.name], f'finger of {b.name}')
                    need (f in [x.number for x in w[h].fingers], f'finger of {b.name} is missing at {h}')
                    same (w[h][f].hand.position, h, f'hand of finger {f}')
                    need (b.name not in seen, f'{b.name} listed twice')
                    seen.add (b.name)
                    rec.step ()
                    rec.state (b.name)
        for h in (L.LEFT, L.RIGHT):
            same (sorted (int (x.number) for x in w[h].fingers), [1, 2, 3, 4, 5], f'fingers of {h}')
        rec.trace ()

SUITES = [ManyButtons (), Direct (), History (), Shipped (), Fingers ()]
