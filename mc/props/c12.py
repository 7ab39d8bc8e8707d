""" C12: effort of a triad """
import itertools
from .. import kit, ref, core, refeffort as R
from ..core import Suite, Violation, need, same, words, close
from lulua import carpalx as X, writer as W, layout as L

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all triads of single buttons and of all triads of combinations with modifiers over representative buttons, for four models, evaluated by the real Carpalx class and by an independent implementation of the published definition'
RULE = 'every triad within the bounds is evaluated once per model; states are the distinct (model, triad)'
ASSUMPTIONS = ['buttons without a published base effort (space, return, tab, control, ...) are outside the model and not used']

SIDE = {ref.LEFT: L.LEFT, ref.RIGHT: L.RIGHT}
def params (m):
    """ reference model -> real parameters """
    return X.ModelParams (kBPS=m.k, k123S=m.k123 + (m.ks, ), w0HRF=m.w, pHand={SIDE[h]: v for h, v in m.pHand.items ()},
        pRow=tuple (m.pRow), pFinger={SIDE[h]: {L.FingerType (f): v for f, v in d.items ()} for h, d in m.pFinger.items ()},
        fHRF=m.f, baselineEffort=dict (m.base))

def model (name):
    """ (real parameters, reference) """
    m = R.MODELS[name]
    return (X.models[name] if name in X.models else params (m)), m

def writer ():
    return W.Writer (kit.shipped ('ar-lulua')[0])

def one (x, real):
    x.reset ()
    x.addTriad (real, 1)
    return x.effort

def checkTriads (name, triads, rec):
    p, m = model (name)
    x = X.Carpalx (p, writer ())
    cache = {}
    def real (c):
        if c not in cache:
            cache[c] = kit.combReal (c)
        return cache[c]
    for t in triads:
        got = one (x, tuple (map (real, t)))
        want = R.effort (m, t)
        if not abs (got-want) <= 1e-9*max (1, abs (want)):
            raise Violation (f'model {name}: effort of {[(sorted (a), b) for a, b in t]} is {got!r}, expected {want!r} (stroke path {R.path ([b for a, b in t])})')
        rec.step ()
        rec.state ((name, t))
    rec.trace ()

NONE = frozenset ()
class Single (Suite):
    name = 'single-buttons'
    bounds = 'all triads of the 52 buttons the models know: mod01 and the model in which all parameters differ (thorough: all four models)'
    def cases (self, tier):
        for name in ('distinct', 'path') if tier == 'quick' else R.MODELS:
            for a in R.BUTTONS:
                yield (name, a)

    def check (self, case, rec):
        name, a = case
        checkTriads (name, (((NONE, a), (NONE, b), (NONE, c)) for b in R.BUTTONS for c in R.BUTTONS), rec)

REPS = ('Bl3', 'Br6', 'Cl2', 'Cr4', 'Dl1', 'Dl4', 'Dr6', 'Dr3', 'El5', 'Er2')
MODS = (NONE, frozenset (['El_shift']), frozenset (['Er_shift']), frozenset (['Fr_altgr']), frozenset (['El_shift', 'Fr_altgr']), frozenset (['Dl_caps']), frozenset (['Dr1', 'El1', 'Er_shift']))
class Multi (Suite):
    name = 'combinations'
    bounds = 'all triads of combinations of 6 (thorough 10) representative buttons with 7 modifier sets of up to 3 buttons, models distinct (thorough: all four)'
    def cases (self, tier):
        reps = REPS[::2] + ('Er2', ) if tier == 'quick' else REPS
        for name in ('distinct', ) if tier == 'quick' else R.MODELS:
            for a in itertools.product (MODS, reps):
                yield (name, a, reps)

    def check (self, case, rec):
        name, a, reps = case
        pool = list (itertools.product (MODS, reps))
        checkTriads (name, ((a, b, c) for b in pool for c in pool), rec)

class Published (Suite):
    name = 'published-models'
    bounds = 'models mod01 and salvo: every button as first, second and third stroke with every modifier set, all pairs of representative buttons around it'
    def cases (self, tier):
        for name in ('mod01', 'salvo'):
            for b in R.BUTTONS:
                yield (name, b)

    def check (self, case, rec):
        name, b = case
        def triads ():
            for m in MODS:
                for x in REPS:
                    for y in REPS:
                        yield ((m, b), (NONE, x), (NONE, y))
                        yield ((NONE, x), (m, b), (NONE, y))
                        yield ((NONE, x), (NONE, y), (m, b))
        checkTriads (name, triads (), rec)
        need (name in X.models, f'no model {name}')

class Layouts (Suite):
    """ depends on buttons only, not on the layout or keyboard object """
    name = 'layouts-and-keyboards'
    bounds = 'all triads of 7 buttons with writers for every shipped layout; two models evaluated alternately'
    def cases (self, tier):
        yield from kit.layoutNames (null=True)

    def check (self, name, rec):
        real, lay = kit.shipped (name)
        w = W.Writer (real)
        xs = [(X.Carpalx (model (n)[0], w), model (n)[1], n) for n in ('mod01', 'distinct')]
        pool = [(NONE, b) for b in REPS[:6]] + [(frozenset (['El_shift']), 'Dr6')]
        for t in itertools.product (pool, repeat=3):
            rt = tuple (map (kit.combReal, t))
            for x, m, n in xs:
                close (one (x, rt), R.effort (m, t), f'layout {name}, model {n}, triad {t}')
                rec.step ()
            rec.state ((name, t))
        rec.trace ()

SUITES = [Single (), Multi (), Published (), Layouts ()]
