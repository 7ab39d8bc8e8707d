"""
Controlled random numbers: every draw of the module-level functions of `random`
becomes a choice point, histories of choices are enumerated by re-execution.
"""
import random as _random, sys

class Limit (Exception):
    pass

class Script:
    """ The first len(prefix) draws follow the prefix, later ones a default
    which visits all values in turn (so that rejection loops end). Records
    the number of alternatives at every draw. """
    def __init__ (self, prefix, limit=200000):
        self.prefix = prefix
        self.taken = []
        self.sizes = []
        self.limit = limit
        self.default = 0

    def pick (self, n):
        if n <= 0:
            raise IndexError ('Cannot choose from an empty sequence')
        k = len (self.taken)
        if k >= self.limit:
            raise Limit ()
        if k < len (self.prefix):
            v = self.prefix[k] % n
        else:
            # successive draws visit every ordered pair
            j = self.default//2
            v = (j if self.default % 2 == 0 else j+1+j//n) % n
            self.default += 1
        self.taken.append (v)
        self.sizes.append (n)
        return v

NAMES = ('choice', 'randrange', 'randint', 'sample', 'shuffle', 'choices', 'random', 'uniform', 'getrandbits', 'seed', 'Random', 'SystemRandom')

class Controlled:
    def __init__ (self, script):
        self.s = script

    def __enter__ (self):
        self.old = {k: getattr (_random, k) for k in NAMES}
        pick = self.s.pick
        def choice (seq):
            return seq[pick (len (seq))]
        def randrange (a, b=None, step=1):
            r = range (a) if b is None else range (a, b, step)
            return r[pick (len (r))]
        def randint (a, b):
            return randrange (a, b+1)
        def sample (population, k, *, counts=None):
            pool = list (population)
            return [pool.pop (pick (len (pool))) for _ in range (k)]
        def shuffle (x):
            for i in range (len (x)-1, 0, -1):
                j = pick (i+1)
                x[i], x[j] = x[j], x[i]
        def choices (population, weights=None, *, cum_weights=None, k=1):
            return [population[pick (len (population))] for _ in range (k)]
        def rnd ():
            return pick (64)/64
        def uniform (a, b):
            return a + (b-a)*rnd ()
        def getrandbits (k):
            return pick (1 << min (k, 16))
        new = dict (choice=choice, randrange=randrange, randint=randint, sample=sample, shuffle=shuffle,
                choices=choices, random=rnd, uniform=uniform, getrandbits=getrandbits, seed=lambda *a, **k: None)
        # generators of their own
        class Generator:
            def __init__ (self, *a):
                pass
        for k, v in new.items ():
            setattr (Generator, k, staticmethod (v))
        new['Random'] = new['SystemRandom'] = Generator
        # names imported by the package
        byId = {id (v): new[k] for k, v in self.old.items ()}
        self.names = []
        for name, m in list (sys.modules.items ()):
            if m is not None and name.split ('.')[0] == 'lulua':
                for a, v in list (vars (m).items ()):
                    # bound methods are created once, on import of random
                    if id (v) in byId:
                        self.names.append ((m, a, v))
                        setattr (m, a, byId[id (v)])
        for k, v in new.items ():
            setattr (_random, k, v)
        return self.s

    def __exit__ (self, *a):
        for k, v in self.old.items ():
            setattr (_random, k, v)
        for m, a, v in self.names:
            setattr (m, a, v)
        return False

def histories (run, depth, skip=0):
    """ All histories: run(Script) is called for every sequence of choices of
    up to `depth` draws (after the first `skip` draws, which take their
    default), later ones take their default """
    stack = [[]]
    while stack:
        prefix = stack.pop ()
        s = Script (prefix)
        run (s)
        taken, sizes = s.taken, s.sizes
        for k in range (len (taken)-1, len (prefix)-1, -1):
            if k >= depth:
                continue
            for v in range (sizes[k]-1, -1, -1):
                if v != taken[k]:
                    stack.append (taken[:k] + [v])
