""" C14: simulated annealing """
import io, itertools, sys
from .. import core
from ..core import Suite, Violation, need, same, words, close
from lulua import optimize as O
import tqdm
tqdm.tqdm.monitor_interval = 0

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of scripts of mutations and energy changes; the real Annealer is run on every script in lock step with a model of the acceptance rule: the state every mutation starts from, the state and energy returned and the state left behind are compared'
RULE = 'a case is a script prefix; all continuations are run; states are (step, kept mutations, energy) of the model, transitions are mutations'
ASSUMPTIONS = ['a change of zero before any other change has no relative size and is thus not kept',
        'energy changes are dyadic rationals, so that sums are exact, and never within rounding distance of the threshold']

class Tree:
    """ Mutable state with nested mutable parts; copy() is deep, as required """
    def __init__ (self, log=()):
        self.log = list (log)
        self.nested = {'last': [len (self.log)]}

    def copy (self):
        n = Tree (self.log)
        n.nested = {'last': list (self.nested['last'])}
        return n

    def value (self):
        return tuple (self.log), tuple (self.nested['last'])

class InPlace (O.Annealer):
    """ changes the state object """
    def __init__ (self, script, state=None):
        super ().__init__ (state or Tree ())
        self.script = list (script)
        self.pos = 0
        self.seen = []

    def mutate (self):
        self.seen.append (self.state.value ())
        d = self.script[self.pos]
        self.state.log.append ((self.pos, d))
        self.state.nested['last'][0] = len (self.state.log)
        self.pos += 1
        return d

class Replacing (InPlace):
    """ replaces the state object """
    def mutate (self):
        self.seen.append (self.state.value ())
        d = self.script[self.pos]
        self.state = Tree (self.state.log + [(self.pos, d)])
        self.pos += 1
        return d

KINDS = [InPlace, Replacing]

def model (script, start=(), offset=0, rec=None):
    """ returns states before each mutation, best state, best energy, last state """
    n = len (script)
    cur, energy, largest = tuple (start), 0, 0
    best = (cur, 0)
    seen = []
    for i, d in enumerate (script):
        seen.append (cur)
        largest = max (largest, abs (d))
        keep = d < 0
        # nothing to compare with, if there was no change yet
        if not keep and largest > 0:
            # 10^(-6 i/n), compared without powers: rel < 10^(-6i/n)
            keep = abs (d)/largest < 10.0**(-6.0*i/n)
        if keep:
            cur = cur + ((i+offset, d), )
            energy += d
            if energy < best[1]:
                best = (cur, energy)
        if rec is not None:
            rec.state ((n, i, cur, energy))
    return seen, best, cur

def value (log):
    return tuple (log), (len (log), )

def run (a, steps):
    err = sys.stderr
    sys.stderr = io.StringIO ()
    try:
        return a.run (steps)
    finally:
        sys.stderr = err

def compare (cls, script, rec, offset=0, a=None, start=()):
    if a is None:
        a = cls (script)
    else:
        a.script = list (a.script) + list (script)
        a.seen = []
    what = f'{cls.__name__} with energy changes {list (script)}'
    seen, (bs, be), cur = model (script, start, offset, rec)
    state, energy = run (a, len (script))
    same (len (a.seen), len (script), f'{what}: number of mutations')
    for i, (g, w) in enumerate (zip (a.seen, seen)):
        same (g, value (w), f'{what}: state before mutation {i}')
    same (state.value (), value (bs), f'{what}: returned state')
    same (energy, be, f'{what}: returned energy')
    same (a.state.value (), value (cur), f'{what}: state after the last step')
    # must not be shared with the current state
    a.state.log.append ('later')
    a.state.nested['last'].append ('later')
    same (state.value (), value (bs), f'{what}: returned state after changing the current state')
    a.state.log.pop ()
    a.state.nested['last'].pop ()
    rec.step (len (script))
    rec.trace ()
    rec.outcome ((bs, be))
    return a, cur

class Scripts (Suite):
    name = 'scripts'
    bounds = 'all scripts of up to 5 (thorough 6) mutations out of 9 energy changes: +-8, +-1, +-1/16, +1/256, +2^-16 and zero'
    D = (8, -8, 1, -1, 0.0625, -0.0625, 0.00390625, 2.0**-16, 0)
    def cases (self, tier):
        n = 5 if tier == 'quick' else 6
        yield ()
        for k in range (1, n+1):
            for pre in words (self.D, min (2, k), min (2, k)):
                yield (k, pre)

    def check (self, case, rec):
        if not case:
            for cls in KINDS:
                compare (cls, (), rec)
            return
        n, pre = case
        for rest in words (self.D, n-len (pre), n-len (pre)):
            for cls in KINDS:
                compare (cls, tuple (pre) + rest, rec)

class Threshold (Suite):
    name = 'threshold'
    bounds = 'every number of steps from 1 to 24 (thorough 60), every step: an uphill change of a size just below and just above the threshold at that step (after a first change which sets the scale), followed by every combination of up to two more changes'
    def cases (self, tier):
        for n in range (2, 25 if tier == 'quick' else 61):
            for i in range (1, n):
                yield (n, i)

    def check (self, case, rec):
        n, i = case
        t = 10.0**(-6.0*i/n)
        for first in (1, -1, 4, -4):
            # a power of two times small integer, so that sums stay exact enough
            for f in (0.5, 0.9375, 1.0625, 2):
                d = abs (first)*t*f
                for fill in (abs (first), -abs (first)/1024):
                    for last in (-1/1024, 1/1024):
                        script = [first] + [fill]*(i-1) + [d] + [last]*(n-i-1)
                        a = InPlace (script)
                        seen, (bs, be), cur = model (script, rec=rec)
                        state, energy = run (a, n)
                        what = f'{n} steps, energy changes {script}'
                        for k, (g, w) in enumerate (zip (a.seen, seen)):
                            same (g, value (w), f'{what}: state before mutation {k}')
                        same (state.value (), value (bs), f'{what}: returned state')
                        close (energy, be, f'{what}: returned energy')
                        rec.step (n)
                        rec.trace ()

class Zero (Suite):
    name = 'zero-changes'
    bounds = 'all scripts of up to 7 (thorough 9) changes out of 0, -1, +1 which start with zero'
    def cases (self, tier):
        yield from words ((0, -1, 1), 7 if tier == 'quick' else 9, 1)

    def check (self, case, rec):
        if case[0] != 0:
            return
        for cls in KINDS:
            compare (cls, case, rec)

class Twice (Suite):
    name = 'repeated-runs'
    bounds = 'all pairs of scripts of up to 3 (thorough 4) changes out of 5, run one after the other on the same object: the second one starts with the state the first one left, result of the first must stay as it was'
    D = (4, -4, 0.25, -0.25, 2.0**-10)
    def cases (self, tier):
        yield from words (self.D, 3 if tier == 'quick' else 4, 1)

    def check (self, case, rec):
        n = 3
        for second in words (self.D, n, 1):
            for cls in KINDS:
                a = cls (case)
                seen, (bs, be), cur = model (case, rec=rec)
                state, energy = run (a, len (case))
                same (a.state.value (), value (cur), f'{cls.__name__} {case}: state left behind')
                compare (cls, second, rec, offset=len (case), a=a, start=cur)
                same ((state.value (), energy), (value (bs), be), f'{cls.__name__} {case}: first result after a second run {second}')

class Long (Suite):
    name = 'long-runs'
    bounds = 'all periods of up to 4 changes out of 5 repeated for 200 (thorough 2000) steps'
    D = (4, -4, 1, -0.25, 2.0**-10)
    def cases (self, tier):
        n = 200 if tier == 'quick' else 2000
        for p in words (self.D, 4, 1):
            yield (n, p)

    def check (self, case, rec):
        n, p = case
        script = [p[i % len (p)] for i in range (n)]
        # only the kept changes matter here, keep the log short
        class Counter:
            def __init__ (self, n=0): self.n = n
            def copy (self): return Counter (self.n)
        class A (O.Annealer):
            def mutate (self):
                seen.append (self.state.n)
                d = script[len (seen)-1]
                self.state.n = self.state.n*31 % 1000003 + int (d*1024) + 5000
                return d
        seen = []
        a = A (Counter ())
        state, energy = run (a, n)
        cur, e, largest, best = 0, 0, 0, (0, 0)
        for i, d in enumerate (script):
            same (seen[i], cur, f'{n} steps with period {p}: state before mutation {i}')
            largest = max (largest, abs (d))
            if d < 0 or d/largest < 10.0**(-6.0*i/n):
                cur = cur*31 % 1000003 + int (d*1024) + 5000
                e += d
                if e < best[1]:
                    best = (cur, e)
        same ((state.n, energy), best, f'{n} steps with period {p}: result')
        rec.step (n)
        rec.trace ()
        rec.state (case)

class Tiny (Scripts):
    name = 'tiny-and-huge'
    bounds = 'all scripts of up to 4 (thorough 5) mutations out of 8 energy changes: +-2^-40, +-2^-20, -2^-44, +-2^8 and zero'
    D = (2.0**-40, -2.0**-40, 2.0**-20, -2.0**-20, -2.0**-44, 2.0**8, -2.0**8, 0)
    def cases (self, tier):
        for k in range (1, 5 if tier == 'quick' else 6):
            for pre in words (self.D, min (2, k), min (2, k)):
                yield (k, pre)

SUITES = [Tiny (), Scripts (), Threshold (), Zero (), Twice (), Long ()]
