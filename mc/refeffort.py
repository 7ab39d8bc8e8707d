"""
Independent reference for the carpalx effort model, on button names.
http://mkweb.bcgsc.ca/carpalx/?typing_effort, ?model_parameters
"""
import itertools
from .ref import handFinger, LEFT, RIGHT, LITTLE, RING, MIDDLE, INDEX, THUMB

ROWS = 'BCDEF'
def row (name):
    return ROWS.index (name[0])

def table (**rows):
    names = dict (
        B=['Bl1', 'Bl2', 'Bl3', 'Bl4', 'Bl5', 'Bl6', 'Bl7', 'Br6', 'Br5', 'Br4', 'Br3', 'Br2', 'Br1'],
        C=['Cl1', 'Cl2', 'Cl3', 'Cl4', 'Cl5', 'Cr7', 'Cr6', 'Cr5', 'Cr4', 'Cr3', 'Cr2', 'Cr1'],
        D=['Dl_caps', 'Dl1', 'Dl2', 'Dl3', 'Dl4', 'Dl5', 'Dr7', 'Dr6', 'Dr5', 'Dr4', 'Dr3', 'Dr2', 'Dr1'],
        E=['El_shift', 'El1', 'El2', 'El3', 'El4', 'El5', 'El6', 'Er5', 'Er4', 'Er3', 'Er2', 'Er1', 'Er_shift'],
        F=['Fr_altgr'])
    out = {}
    for r, v in rows.items ():
        assert len (v) == len (names[r]), r
        out.update (zip (names[r], v))
    return out

class Model:
    def __init__ (self, k, k123, ks, w, pHand, pRow, pFinger, f, base):
        self.k, self.k123, self.ks, self.w = k, k123, ks, w
        self.pHand, self.pRow, self.pFinger, self.f, self.base = pHand, pRow, pFinger, f, base

F4 = (LITTLE, RING, MIDDLE, INDEX, THUMB)
symmetric = dict (zip (F4, (1.0, 0.5, 0.0, 0.0, 0.0)))
COMMON = dict (k=(0.3555, 0.6423, 0.4268), k123=(1.0, 0.367, 0.235), ks=1.0, w=(0.0, 1.0, 1.3088, 2.5948),
    pHand={LEFT: 0.0, RIGHT: 0.0}, pRow=(1.5, 0.5, 0.0, 1.0, 1.5), f=(1.0, 0.3, 0.3))
ROWB = (5.0, 5.0, 4.0, 4.0, 4.0, 3.5, 4.5, 4.0, 4.0, 4.0, 4.0, 4.0, 4.5)
ROWE = (4.0, 4.0, 2.0, 2.0, 2.0, 2.0, 3.5, 2.0, 2.0, 2.0, 2.0, 2.0, 4.0)
MODELS = dict (
    mod01=Model (pFinger={LEFT: symmetric, RIGHT: symmetric}, base=table (
        B=ROWB, C=(2.0, 2.0, 2.0, 2.0, 2.5, 3.0, 2.0, 2.0, 2.0, 2.5, 4.0, 6.0),
        D=(2.0, 0, 0, 0, 0, 2.0, 2.0, 0, 0, 0, 0, 2.0, 4.0), E=ROWE, F=(4.0, )), **COMMON),
    # finger strengths of the Norman layout, relative to the strongest
    salvo=Model (pFinger={
            LEFT: {LITTLE: 1-3.77/6.57, RING: 1-4.54/6.57, MIDDLE: 1-5.65/6.57, INDEX: 1-6.09/6.57, THUMB: 0.0},
            RIGHT: {LITTLE: 1-4.27/6.57, RING: 1-5.08/6.57, MIDDLE: 1-6.37/6.57, INDEX: 0.0, THUMB: 0.0}},
        base=table (B=ROWB, C=(2.0, 2.0, 2.0, 2.0, 2.3, 3.0, 1.9, 2.0, 2.0, 2.2, 4.0, 6.0),
            D=(2.0, 0, 0, 0, 0, 1.8, 1.8, 0, 0, 0, 0, 2.0, 4.0), E=ROWE, F=(4.0, )), **COMMON),
    )
BUTTONS = sorted (MODELS['mod01'].base)
_keys = sorted (MODELS['mod01'].base)
# every parameter has a value of its own
MODELS['distinct'] = Model (k=(0.37, 0.71, 1.13), k123=(1.9, 0.53, 0.29), ks=0.83, w=(0.17, 1.07, 1.31, 2.59),
    pHand={LEFT: 0.41, RIGHT: 0.97}, pRow=(1.51, 0.59, 0.07, 1.03, 1.63),
    pFinger={LEFT: dict (zip (F4, (1.01, 0.61, 0.23, 0.11, 0.47))), RIGHT: dict (zip (F4, (1.21, 0.73, 0.19, 0.03, 0.67)))},
    f=(1.0, 0.31, 0.0417), base={n: 0.1+0.137*i for i, n in enumerate (_keys)})
# the stroke path only: every category triple gives another value
MODELS['path'] = Model (k=(0.0, 0.0, 1.0), k123=(1.0, 1.0, 1.0), ks=1.0, w=(0.0, 0.0, 0.0, 0.0),
    pHand={LEFT: 0.0, RIGHT: 0.0}, pRow=(0, )*5, pFinger={LEFT: dict.fromkeys (F4, 0.0), RIGHT: dict.fromkeys (F4, 0.0)},
    f=(100.0, 10.0, 1.0), base=dict.fromkeys (_keys, 0.0))

def pathHand (h):
    if h[0] == h[1] == h[2]:
        return 2
    if h[0] == h[2]:
        return 1
    return 0

def pathRow (r):
    """ larger number: further down """
    a, b = r[1]-r[0], r[2]-r[1]
    if a == 0 and b == 0:
        return 0
    if a >= 0 and b >= 0:
        return 4 if a and b else 1
    if a <= 0 and b <= 0:
        return 6 if a and b else 2
    # not monotonic
    if max (abs (a), abs (b), abs (a+b)) <= 1:
        return 3
    return 5 if max (a, b) > 1 else 7

def pathFinger (f, t):
    """ f: position of the fingers from left to right """
    repeat = len (set (t)) < 3
    kinds = len (set (f))
    mono = list (f) == sorted (f) or list (f) == sorted (f, reverse=True)
    if kinds == 1:
        return 5 if repeat else 7
    if kinds == 3:
        if mono:
            return 0
        # the last finger lies between the other two
        return 2 if sorted (f)[1] == f[2] else 3
    if not mono:
        return 4
    return 1 if repeat else 6

def position (name):
    h, f = handFinger[name]
    return f if h == LEFT else 11-f

def path (t):
    return pathHand ([handFinger[x][0] for x in t]), pathRow ([row (x) for x in t]), pathFinger ([position (x) for x in t], t)

def nested (k, b):
    return k[0]*b[0]*(1+k[1]*b[1]*(1+k[2]*b[2]))

def penalty (m, name):
    h, f = handFinger[name]
    return m.w[0] + m.w[1]*m.pHand[h] + m.w[2]*m.pRow[row (name)] + m.w[3]*m.pFinger[h][f]

def effort (m, triad):
    """ triad: three (modifiers, button) """
    keys = [sorted (mods) + [b] for mods, b in triad]
    base = nested (m.k123, [sum (m.base[x] for x in ks) + (len (ks)-1)*m.ks for ks in keys])
    pen = nested (m.k123, [sum (penalty (m, x) for x in ks) + (len (ks)-1)*m.ks for ks in keys])
    best = min (sum (a*b for a, b in zip (m.f, path (t))) for t in itertools.product (*keys))
    return m.k[0]*base + m.k[1]*pen + m.k[2]*best

def total (m, triads):
    n = sum (triads.values ())
    return sum (w*effort (m, t) for t, w in triads.items ())/n if n else 0
