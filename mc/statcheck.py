""" Suites shared by C03 and C04 """
import io, itertools, unicodedata
from . import kit, ref
from .core import Suite, Violation, need, same, words, deBruijn
from lulua import writer as W, stats as S, layout as L

def suites (LAYERS, EVENTS, KINDS, TEXT):
    slots = [s for k in KINDS for s in kit.KINDS[k]]
    byName = {cls.name: cls for cls in S.allStats}

    def make ():
        real, lay = kit.build (LAYERS)
        w = W.Writer (real)
        return real, lay, w

    def compare (stats, events, what):
        d = kit.diff (kit.countsOf (stats), ref.count (events), slots)
        if d:
            raise Violation (f'{what}: {d}')

    class Sequences (Suite):
        name = 'sequences'
        bounds = f'all event sequences up to length 5 (thorough 6) over {len (EVENTS)} events'
        def cases (self, tier):
            yield (tier, ())
            for i in range (len (EVENTS)):
                yield (tier, (i, ))
                for j in range (len (EVENTS)):
                    yield (tier, (i, j))

        def check (self, case, rec):
            tier, pre = case
            real, lay, w = make ()
            evr = [kit.eventReal (e) for e in EVENTS]
            for t in words (range (len (EVENTS)), 0 if len (pre) < 2 else 3 if tier == 'quick' else 4):
                idx = pre + t
                stats = {k: byName[k] (w) for k in KINDS}
                for i in idx:
                    for s in stats.values ():
                        s.process (evr[i])
                ev = [EVENTS[i] for i in idx]
                compare (stats, ev, ev)
                rec.step (len (idx))
                rec.trace ()
                rec.state (idx)
            rec.sample (repr (pre))

    class Pumped (Suite):
        name = 'pumped'
        bounds = 'all sequences u v^n w with |u| <= 1, |v| <= 2, |w| = 1 and n up to 140 (thorough 1100), compared at several n'
        def cases (self, tier):
            n = len (EVENTS)
            for u in words (range (n), 1):
                for v in words (range (n), 2, 1):
                    if tier == 'thorough' or not u or EVENTS[u[0]][0] == 'comb':
                        yield (140 if tier == 'quick' else 1100, u, v)

        def check (self, case, rec):
            n, u, v = case
            real, lay, w = make ()
            evr = [kit.eventReal (e) for e in EVENTS]
            # lengths around which counters, buffers or bytes might overflow
            for end in range (len (EVENTS)) if not u else (0, len (EVENTS)-2, len (EVENTS)-1):
                stats = {k: byName[k] (w) for k in KINDS}
                idx = u + v*n + (end, )
                for i in idx:
                    for s in stats.values ():
                        s.process (evr[i])
                compare (stats, [EVENTS[i] for i in idx], f'{[EVENTS[i] for i in u]} + {[EVENTS[i] for i in v]}*{n} + {EVENTS[end]}')
                rec.step (len (idx))
                rec.trace ()
                rec.state ((case, end))

    class Invalid (Suite):
        name = 'invalid-events'
        bounds = 'every prefix of length <= 2, an invalid event of 6 kinds, every suffix of length <= 2'
        def cases (self, tier):
            yield from words (range (len (EVENTS)), 2)

        def check (self, pre, rec):
            real, lay, w = make ()
            evr = [kit.eventReal (e) for e in EVENTS]
            btn = kit.keyboard ()['Dl1']
            bad = [None, 'a', 1, btn, (evr[0], ), object ()]
            for n, b in enumerate (bad):
                for suf in words (range (len (EVENTS)), 2 if n == 0 else 1):
                    stats = {k: byName[k] (w) for k in KINDS}
                    for s in stats.values ():
                        for i in pre:
                            s.process (evr[i])
                        try:
                            s.process (b)
                        except Exception:
                            pass
                        else:
                            raise Violation (f'{s.name} accepted {b!r}')
                        for i in suf:
                            s.process (evr[i])
                    ev = [EVENTS[i] for i in pre + suf]
                    compare (stats, ev, f'invalid event {b!r} after {pre}, then {suf}')
                    rec.step (len (ev)+1)
                    rec.trace ()
            rec.state (pre)

    class Texts (Suite):
        """ end to end with the writer """
        name = 'texts'
        bounds = f'all texts of up to 5 (thorough 6) of {len (TEXT)} strings, typed by the real writer'
        def cases (self, tier):
            for pre in words (TEXT, 2):
                yield (tier, pre)

        def check (self, case, rec):
            tier, pre = case
            real, lay, _ = make ()
            for t in words (TEXT, 0 if len (pre) < 2 else 3 if tier == 'quick' else 4):
                text = ''.join (pre + t)
                w = W.Writer (real)
                stats = {k: byName[k] (w) for k in KINDS}
                for m, e in w.type (io.StringIO (text)):
                    for s in stats.values ():
                        s.process (e)
                ev, _ = ref.typeText (lay, text)
                compare (stats, ev, f'text {text!r}')
                rec.step (len (ev))
                rec.trace ()
                rec.state (text)

    class Shipped (Suite):
        name = 'shipped'
        bounds = 'every shipped layout: every combination of it, between every pair of 8 context events of that layout'
        def cases (self, tier):
            for name in kit.layoutNames ():
                real, lay = kit.shipped (name)
                for i in range (len (lay.text)):
                    yield (name, i)

        def check (self, case, rec):
            name, i = case
            real, lay = kit.shipped (name)
            combs = list (lay.text)
            w = W.Writer (real)
            me = ('comb', lay.text[combs[i]], combs[i])
            rep = {}
            for c in combs:
                rep.setdefault ((ref.hand (c[1]), len (c[0]), c[1] in ref.IGNORED), c)
            ctx = [('comb', lay.text[c], c) for c in rep.values ()][:7] + [('skip', 'x')]
            for a, b in itertools.product (ctx, ctx):
                ev = [a, me, b, me, me, a, b, b, b]
                stats = {k: byName[k] (w) for k in KINDS}
                for e in ev:
                    e = kit.eventReal (e)
                    for s in stats.values ():
                        s.process (e)
                compare (stats, ev, f'{name}: {ev}')
                rec.step (len (ev))
                rec.trace ()
                rec.state ((name, me, a, b))

    class Many (Suite):
        name = 'many-different'
        bounds = 'every shipped layout: one stream which contains every ordered pair of its combinations (de Bruijn sequence of order 2), and one which contains every triple of 24 (thorough 40) combinations of it including white space; compared at the end and at every eighth of the way; words of one to three of 20 letters in every combination'
        def cases (self, tier):
            for name in kit.layoutNames ():
                yield (name, 2, None)
                yield (name, 3, 24 if tier == 'quick' else 40)
                yield (name, 0, 20)

        def check (self, case, rec):
            name, order, k = case
            real, lay = kit.shipped (name)
            combs = [c for c in lay.text if c[1] not in ref.IGNORED] + [c for c in lay.text if c[1] in ref.IGNORED]
            if order == 0:
                letters = [c for c in combs if len (lay.text[c]) == 1 and unicodedata.category (lay.text[c]) == 'Lo'][:k]
                space = next (c for c in combs if lay.text[c] == ' ')
                idx = []
                for t in words (range (len (letters)), 3, 1):
                    idx.extend (letters[i] for i in t)
                    idx.append (space)
            else:
                if k is not None:
                    combs = combs[:k-2] + combs[-2:]
                seq = deBruijn (len (combs), order)
                idx = [combs[i] for i in seq + seq[:order-1]]
            ev = [('comb', lay.text[c], c) for c in idx]
            evr = {c: kit.eventReal (('comb', lay.text[c], c)) for c in set (idx)}
            w = W.Writer (real)
            stats = {x: byName[x] (w) for x in KINDS}
            step = len (ev)//8+1
            for i, c in enumerate (idx):
                for s in stats.values ():
                    s.process (evr[c])
                if i % step == step-1 or i == len (idx)-1:
                    compare (stats, ev[:i+1], f'{name}: first {i+1} events of a stream with every word of {order} combinations')
                    rec.trace ()
            rec.step (len (ev))
            rec.state (case)

    class Skips (Suite):
        name = 'all-skips'
        bounds = 'every Unicode code point except surrogates as skipped character, after one, two and three combinations, doubled, and before a white space combination'
        STEP = 4096
        def cases (self, tier):
            yield from range (0, 0x110000, self.STEP)

        def check (self, start, rec):
            real, lay, w = make ()
            # two ordinary combinations and the space bar
            a, b = EVENTS[0], next (e for e in EVENTS if e[0] == 'comb' and ref.hand (e[2][1]) != ref.hand (EVENTS[0][2][1]) and not e[2][1].endswith ('_space'))
            sp = next (e for e in EVENTS if e[0] == 'comb' and e[1] == ' ')
            evr = {e: kit.eventReal (e) for e in (a, b, sp)}
            for part in range (start, start+self.STEP, 512):
                stats = {k: byName[k] (w) for k in KINDS}
                ev = []
                for i in range (part, part+512):
                    if 0xd800 <= i < 0xe000:
                        continue
                    s = ('skip', chr (i))
                    ev.extend ((a, s, b, a, s, s, a, b, b, s, sp, a, sp))
                for e in ev:
                    r = evr.get (e) or kit.eventReal (e)
                    for x in stats.values ():
                        x.process (r)
                compare (stats, ev, f'U+{part:04X} to U+{part+511:04X} skipped')
                rec.step (len (ev))
                rec.trace ()
            rec.state (start)

    class Buttons (Suite):
        name = 'all-buttons'
        bounds = 'layouts which use every button of the keyboard but the shift keys: streams with every ordered pair of them, unshifted, shifted with either key, and mixed, started at every eighth button, once with letters and once with other characters; compared at every eighth of the way'
        def cases (self, tier):
            for cls in (0x628, 0x2190):
                for how in range (3):
                    for start in range (8):
                        yield (cls, how, start)

        def check (self, case, rec):
            cls, how, start = case
            names = [k.name for k in kit.keyboard ().keys () if k.name not in ('El_shift', 'Er_shift')]
            names = names[start*8:] + names[:start*8]
            # no two of them in the same category by accident
            chars = [chr (i) for i in range (cls, cls+400) if unicodedata.category (chr (i)) in ('Lo', 'Sm', 'So')]
            base = dict (zip (names, chars))
            shifted = dict (zip (names, chars[len (names):]))
            real, lay = kit.build ([([[]], base), ([['El_shift'], ['Er_shift']], shifted)])
            w = W.Writer (real)
            seq = deBruijn (len (names), 2)
            ev = []
            for i, k in enumerate (seq + seq[:1]):
                n = names[k]
                mod = {0: (), 1: ('El_shift', 'Er_shift')[i%2:i%2+1], 2: ((), ('El_shift', ), (), ('Er_shift', ), ())[i%5]}[how]
                ev.append (('comb', (shifted if mod else base)[n], (frozenset (mod), n)))
            stats = {x: byName[x] (w) for x in KINDS}
            step = len (ev)//8+1
            for i, e in enumerate (ev):
                r = kit.eventReal (e)
                for s in stats.values ():
                    s.process (r)
                if i % step == step-1 or i == len (ev)-1:
                    compare (stats, ev[:i+1], f'first {i+1} events of a stream with every pair of buttons {case}')
                    rec.trace ()
            rec.step (len (ev))
            rec.state (case)

    return [Skips (), Buttons (), Many (), Sequences (), Pumped (), Invalid (), Texts (), Shipped ()]
