""" C13: accumulated effort """
import collections, itertools, random
from .. import kit, ref, core, refeffort as R
from ..core import Suite, Violation, need, same, words, close
from lulua import carpalx as X, writer as W
from .c12 import model, writer

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of operation histories (add, add many, remove, reset, copy) on several Carpalx instances in lock step with an exact multiset model; effort recomputed from scratch by an independent implementation after every operation'
RULE = 'a case is a history prefix; all continuations up to the depth bound are run; states are the multisets of all instances'

N = frozenset ()
T = [((N, 'Dl1'), (N, 'Dr3'), (N, 'Cl4')),
     ((frozenset (['Er_shift']), 'El3'), (N, 'El3'), (N, 'El3')),
     ((N, 'Br4'), (frozenset (['El_shift', 'Fr_altgr']), 'Dr6'), (N, 'Er2')),
     # same button triple as the first one, but different modifiers
     ((N, 'Dl1'), (frozenset (['El_shift']), 'Dr3'), (N, 'Cl4'))]
NT = len (T)
# all orders of the same three combinations, and the same buttons with the modifier elsewhere
_x = ((N, 'Cl5'), (frozenset (['El_shift']), 'Dr2'), (N, 'Er4'))
_y = ((frozenset (['El_shift']), 'Cl5'), (N, 'Dr2'), (N, 'Er4'))
T += list (itertools.permutations (_x)) + list (itertools.permutations (_y)) + [
     # repetitions, the same set of combinations
     (_x[0], _x[0], _x[1]), (_x[0], _x[1], _x[0]), (_x[1], _x[0], _x[0]), (_x[0], _x[1], _x[1]), (_x[1], _x[1], _x[0]), (_x[1], _x[0], _x[1]), (_x[0], )*3, (_x[1], )*3,
     # other modifiers and several of them
     ((frozenset (['Er_shift']), 'Cl5'), (N, 'Dr2'), (N, 'Er4')),
     ((frozenset (['El_shift', 'Er_shift']), 'Cl5'), (N, 'Dr2'), (N, 'Er4'))]
REAL = None
def real (t):
    global REAL
    if REAL is None:
        REAL = {x: tuple (map (kit.combReal, x)) for x in T}
    return REAL[t]

class Sys:
    """ real instances and their model """
    def __init__ (self, names):
        self.names = list (names)
        self.real = [X.Carpalx (model (n)[0], writer ()) for n in names]
        self.ref = [collections.Counter () for n in names]

    def do (self, op):
        k, i = op[0], op[1]
        x, c = self.real[i], self.ref[i]
        if k == 'add':
            x.addTriad (real (T[op[2]]), op[3])
            c[op[2]] += op[3]
        elif k == 'remove':
            x.removeTriad (real (T[op[2]]), op[3])
            c[op[2]] -= op[3]
        elif k == 'many':
            x.addTriads ({real (T[t]): w for t, w in op[2]})
            for t, w in op[2]:
                c[t] += w
        elif k == 'reset':
            x.reset ()
            c.clear ()
        elif k == 'copy':
            # instance op[2] becomes a copy
            self.real[op[2]] = x.copy ()
            self.ref[op[2]] = collections.Counter (c)
            self.names[op[2]] = self.names[i]
        elif k == 'look':
            x.effort

    def expected (self, i):
        c, m = self.ref[i], R.MODELS[self.names[i]]
        n = sum (c.values ())
        if n == 0:
            return 0.0
        return sum (w*EFF[(self.names[i], t)] for t, w in c.items ())/n

    def check (self, hist):
        for i, x in enumerate (self.real):
            want = self.expected (i)
            got = x.effort
            n = sum (self.ref[i].values ())
            scale = sum (abs (w) for w in self.ref[i].values ())*10/abs (n) if n else 1
            if not abs (got-want) <= 1e-9*max (1.0, abs (want), scale) or (n == 0 and got != 0):
                raise Violation (f'instance {i} after {hist}: effort {got!r}, expected {want!r}')

    def key (self):
        return repr ((self.names, [sorted ((k, v) for k, v in c.items () if v) for c in self.ref]))

EFF = {(n, i): R.effort (m, t) for n, m in R.MODELS.items () for i, t in enumerate (T)}

class Histories (Suite):
    name = 'histories'
    bounds = 'two instances, all histories of 4 (thorough 5) operations out of 20: add/remove any of 3 triads with weights 1..3, add a table, reset, copy over the other instance; every instance checked after every operation'
    def ops (self):
        for i in range (2):
            for t in range (3):
                yield ('add', i, t, t+1)
                yield ('remove', i, t, t+1)
            yield ('many', i, ((0, 2), (3, 5)))
            yield ('reset', i)
            yield ('copy', i, 1-i)
            yield ('remove', i, 0, 2)

    def cases (self, tier):
        n = 4 if tier == 'quick' else 5
        for pre in itertools.product (list (self.ops ()), repeat=2):
            yield (n, pre)

    def check (self, case, rec):
        n, pre = case
        ops = list (self.ops ())
        for rest in words (ops, n-2, n-2):
            s = Sys (('mod01', 'mod01'))
            hist = tuple (pre) + rest
            for k, op in enumerate (hist):
                s.do (op)
                s.check (hist[:k+1])
            rec.step (len (hist))
            rec.state (s.key ())
            rec.trace ()

class Models (Suite):
    name = 'instances-with-different-models'
    bounds = 'two instances with different models which evaluate the same triads in every order, histories of 4 (thorough 5) operations, copies in both directions'
    def ops (self):
        for i in range (2):
            yield ('add', i, 0, 1)
            yield ('add', i, 3, 2)
            yield ('remove', i, 0, 1)
            yield ('look', i)
            yield ('copy', i, 1-i)

    def cases (self, tier):
        n = 4 if tier == 'quick' else 5
        for a, b in itertools.permutations (R.MODELS, 2):
            for o in self.ops ():
                yield (n, (a, b), o)

    def check (self, case, rec):
        n, names, first = case
        for rest in words (list (self.ops ()), n-1, n-1):
            s = Sys (names)
            for k, op in enumerate ((first, ) + rest):
                s.do (op)
                s.check ((first, ) + rest)
            rec.step (n)
            rec.trace ()
            rec.state (s.key ())

class Copies (Suite):
    name = 'chains-of-copies'
    bounds = 'three instances; all histories of 4 (thorough 5) operations out of copying between any two, adding and removing one triad, reset; and two more additions at the end'
    def ops (self):
        for i in range (3):
            for j in range (3):
                if i != j:
                    yield ('copy', i, j)
            yield ('add', i, i, 2)
            yield ('remove', i, 0, 1)
            yield ('reset', i)

    def cases (self, tier):
        n = 4 if tier == 'quick' else 5
        for pre in itertools.product (list (self.ops ()), repeat=2):
            yield (n, pre)

    def check (self, case, rec):
        n, pre = case
        for rest in words (list (self.ops ()), n-2, n-2):
            s = Sys (('mod01', )*3)
            hist = tuple (pre) + rest + (('add', 0, 1, 1), ('add', 2, 0, 4))
            for op in hist:
                s.do (op)
            s.check (hist)
            rec.step (len (hist))
            rec.trace ()
            rec.state (s.key ())

class Earlier (Suite):
    name = 'previously-evaluated-triads'
    bounds = 'all ordered pairs (thorough triples) of 22 closely related triads (every order and repetition of the same combinations, the same buttons with other modifiers): the last one is evaluated after the others were evaluated by the same instance, its copy, the instance it is a copy of or an unrelated instance (with the same or another model)'
    def cases (self, tier):
        for t in itertools.product (range (NT, len (T)), repeat=2 if tier == 'quick' else 3):
            yield t

    def check (self, case, rec):
        last = case[-1]
        for names in (('mod01', 'mod01'), ('mod01', 'salvo'), ('salvo', 'mod01')):
            for kind in range (4):
                s = Sys (names)
                hist = []
                if kind in (1, 2):
                    # copy first, or evaluated before the copy is made
                    if kind == 1:
                        hist.append (('copy', 0, 1))
                    for t in case[:-1]:
                        hist += [('add', 0, t, 1), ('remove', 0, t, 1)]
                    if kind == 2:
                        hist.append (('copy', 0, 1))
                    hist.append (('add', 1, last, 1))
                else:
                    i = 0 if kind == 0 else 1
                    for t in case[:-1]:
                        hist += [('add', i, t, 1), ('remove', i, t, 1)]
                    hist.append (('add', 0, last, 1))
                hist.append (('reset', 0))
                hist.append (('add', 0, last, 2))
                for k, op in enumerate (hist):
                    s.do (op)
                    s.check (hist[:k+1])
                rec.step (len (hist))
                rec.trace ()
                rec.state ((names, kind, case))

class Cached (Suite):
    """ many triads, one instance: whatever it remembers, it has to be the right thing """
    name = 'all-combinations'
    bounds = 'one instance evaluates every combination (all buttons with a known effort, up to 2 of 4 modifiers) in each position next to 3 (thorough 8) pairs of partners, both orders of evaluation, checked one by one; then its copy does'
    def combs (self):
        m = R.MODELS['mod01']
        mods = [x for x in ('El_shift', 'Er_shift', 'Fr_altgr', 'Fl_space') if x in m.base]
        sets = [frozenset (x) for n in range (3) for x in itertools.combinations (mods, n)]
        return [(s, b) for b in sorted (m.base) for s in sets if b not in s]

    def cases (self, tier):
        for pos in range (3):
            for p in range (3 if tier == 'quick' else 8):
                for order in (1, -1):
                    yield (pos, p, order)

    def check (self, case, rec):
        pos, p, order = case
        m = R.MODELS['mod01']
        all_ = self.combs ()
        partners = [all_[(p*37) % len (all_)], all_[(p*101+17) % len (all_)]]
        x = X.Carpalx (model ('mod01')[0], writer ())
        for k, inst in enumerate ((x, None)):
            inst = inst or x.copy ()
            for c in all_[::order]:
                t = tuple (partners[:pos] + [c] + partners[pos:])
                r = tuple (map (kit.combReal, t))
                inst.reset ()
                inst.addTriad (r, 2)
                close (inst.effort, R.effort (m, t), f'effort of {t} after others')
                inst.removeTriad (r, 2)
                rec.step ()
                rec.state ((k, t))
            rec.trace ()

class Weights (Suite):
    name = 'weights'
    bounds = 'all pairs of weights out of 0, 1, 2, 0.5, 0.25, 1000000, -1, 3: add with one, remove with the other, on two triads, in every order'
    W = (0, 1, 2, 0.5, 0.25, 1000000, -1, 3)
    def cases (self, tier):
        yield from itertools.product (self.W, repeat=2)

    def check (self, case, rec):
        a, b = case
        for c in self.W:
            ops = [('add', 0, 0, a), ('remove', 0, 0, b), ('add', 0, 1, c), ('remove', 0, 1, a)]
            for p in itertools.permutations (ops):
                s = Sys (('mod01', ))
                for k, op in enumerate (p):
                    s.do (op)
                    s.check (p[:k+1])
                rec.step (4)
                rec.trace ()
                rec.state ((a, b, c, p))

class Long (Suite):
    name = 'long-histories'
    bounds = 'all periods of up to 3 operations out of 8 repeated to 3000 (thorough 100000) operations'
    def cases (self, tier):
        n = 3000 if tier == 'quick' else 100000
        ops = [('add', 0, 0, 1), ('add', 0, 1, 3), ('remove', 0, 0, 1), ('remove', 0, 1, 3), ('copy', 0, 1), ('copy', 1, 0), ('reset', 1), ('add', 1, 2, 2)]
        for p in words (ops, 3, 1):
            yield (n, p)

    def check (self, case, rec):
        n, per = case
        s = Sys (('mod01', 'mod01'))
        for i in range (n):
            s.do (per[i % len (per)])
        for i in range (2):
            close (s.real[i].effort, s.expected (i), f'instance {i} after {n} operations, period {per}', tol=1e-7)
        rec.step (n)
        rec.trace ()
        rec.state (case)

SUITES = [Histories (), Models (), Copies (), Earlier (), Cached (), Weights (), Long ()]
