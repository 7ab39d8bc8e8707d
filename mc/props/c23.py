""" C23: numbers and values in the report """
import collections, itertools, math, os, pickle, re
from fractions import Fraction
from html.parser import HTMLParser
import yaml
from .. import kit, ref, core
from ..core import Suite, Violation, need, same, words, close
from lulua import report as P, layout as L

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of numbers around every rounding and unit boundary, fractions and formatted strings, compared in exact rational arithmetic; exhaustive enumeration of corpus lists, their distribution over files and layout statistics, with the report written by the real command parsed back'
RULE = 'states are the distinct inputs; transitions are the values compared'
ASSUMPTIONS = ['numbers exactly half way between two decimals may be rounded either way', 'the report is given statistics of all layouts it describes']

UNITS = {'en': ['', 'thousand', 'million', 'billion'], 'ar': ['', '\u0623\u0644\u0641', '\u0645\u0644\u064a\u0648\u0646', '\u0645\u0644\u064a\u0627\u0631']}
TENTH = Fraction (1, 10)

def approxOk (value, got, unit, lang):
    """ None or what is wrong """
    value, got = Fraction (value), Fraction (got)
    if unit not in UNITS[lang]:
        return f'unit {unit!r}'
    k = UNITS[lang].index (unit)
    v = value / 1000**k
    if (got*10).denominator != 1:
        return f'{got} has more than one decimal'
    if abs (got-v) > TENTH/2:
        return f'{float (got)} {unit} is not the closest'
    if got >= 1000 and k < 3:
        return f'{float (got)} {unit} is too large for its unit'
    # a smaller unit would have been enough
    if k > 0 and value / 1000**(k-1) < 1000-TENTH/2:
        return f'{float (got)} {unit} should use a smaller unit'

def checkApprox (value, rec):
    for lang, call in (('en', lambda: P.approx (value)), ('ar', lambda: P.approx (value, 'ar')), ('en', lambda: P.approx (value, 'en'))):
        got, unit = call ()
        bad = approxOk (value, got, unit, lang)
        need (bad is None, f'approx ({value!r}, {lang!r}): {bad}')
    rec.step (3)

class Approx (Suite):
    name = 'approx'
    bounds = 'all integers up to 20 000 (thorough 400 000); integers within 2 of every twentieth step up to 1200 of every unit, also beyond the largest, there also the 200 steps after every 1, 2, 5, 9 times a power of ten up to 10^6; floats next to every such step; in both languages'
    def cases (self, tier):
        top = 20000 if tier == 'quick' else 400000
        for i in range (0, top, 1000):
            yield ('int', i)
        for k in range (5):
            for block in range (0, 1200, 25):
                yield ('step', k, block, tier)
        for k in range (3, 7):
            for d in (1, 2, 5, 9):
                yield ('large', d*10**k)

    def check (self, case, rec):
        if case[0] == 'int':
            for i in range (case[1], case[1]+1000):
                checkApprox (i, rec)
        elif case[0] == 'large':
            for t in range (-20, 200):
                v = (case[1]*20+t)*10**9//20
                for x in (v-1, v, v+1):
                    checkApprox (x, rec)
                checkApprox (float (v) + .25, rec)
        else:
            _, k, block, tier = case
            unit = 1000**k
            for t in range (block*20, (block+25)*20, 1 if tier == 'thorough' else 2 if block in (0, 975, 1000) else 10):
                v = Fraction (t, 20)*unit
                if v.denominator == 1:
                    for d in range (-2, 3):
                        if v+d >= 0:
                            checkApprox (int (v)+d, rec)
                for f in (math.nextafter (float (v), -1), float (v), math.nextafter (float (v), math.inf)):
                    if f >= 0:
                        checkApprox (f, rec)
        rec.trace ()
        rec.state (case)

class Fractions (Suite):
    name = 'fractions'
    bounds = 'all p/q with q <= 60 (thorough 150) and 0 <= p/q <= 2 as float and the floats next to them, denominators up to the default limit 10 and every limit 1 to 16 for q <= 24; sums of shares like k/1000'
    def cases (self, tier):
        yield from range (1, 61 if tier == 'quick' else 151)
        yield 1000

    def check (self, q, rec):
        for p in range (0, 2*q+1):
            for n in {p/q, math.nextafter (p/q, 9), math.nextafter (p/q, 0)}:
                limits = [None] + (list (range (1, 17)) if q <= 24 else [])
                for m in limits:
                    s = P.fraction (n) if m is None else P.fraction (n, m)
                    r = re.fullmatch (r'(\d+)\u2044(\d+)', s)
                    need (r, f'fraction ({n}, {m}) is {s!r}')
                    a, b = int (r[1]), int (r[2])
                    lim = m or 10
                    need (0 < b <= lim and math.gcd (a, b) == 1, f'fraction ({n}, {lim}) is {s!r}')
                    x = Fraction (n)
                    best = min (abs (Fraction (round (x*d), d)-x) for d in range (1, lim+1))
                    same (abs (Fraction (a, b)-x), best, f'fraction ({n}, {lim}) is {s!r}, distance')
                    rec.step ()
        rec.trace ()
        rec.state (q)

DIGITS = dict (zip ('0123456789,.', '\u0660\u0661\u0662\u0663\u0664\u0665\u0666\u0667\u0668\u0669\u066c\u066b'))

class Strings (Suite):
    name = 'strings'
    bounds = 'every code point alone, and all strings of up to 4 (thorough 5) of 8 characters'
    def cases (self, tier):
        for i in range (0, 0x110000, 0x1000):
            yield ('char', i)
        for pre in words (self.ALPHABET, 1):
            yield ('word', pre, 4 if tier == 'quick' else 5)
    ALPHABET = '0', '5', '9', ',', '.', ' ', '%', '\u0665'

    def check (self, case, rec):
        if case[0] == 'char':
            pool = map (chr, range (case[1], case[1]+0x1000))
        else:
            pool = (''.join (case[1] + t) for t in words (self.ALPHABET, 0 if not case[1] else case[2]-1))
        for s in pool:
            same (P.arabnum (s), ''.join (DIGITS.get (c, c) for c in s), f'arabnum ({s!r})')
            same (P.numspace (s), ''.join ('\u2007' if c == ' ' else c for c in s), f'numspace ({s!r})')
            rec.step (2)
        rec.trace ()
        rec.state (case)

# ------------------------------------------------------------------- report

VOID = {'meta', 'link', 'img', 'br', 'hr', 'input', 'source', 'col'}

class Node:
    def __init__ (self, tag, attrs, parent):
        self.tag, self.attrs, self.parent, self.children = tag, dict (attrs), parent, []

    def text (self):
        return ''.join (c if isinstance (c, str) else c.text () for c in self.children)

    def iter (self):
        yield self
        for c in self.children:
            if isinstance (c, Node):
                yield from c.iter ()

    def find (self, tag=None, cls=None):
        return [n for n in self.iter () if n is not self and (tag is None or n.tag == tag) and (cls is None or cls in (n.attrs.get ('class') or '').split ())]

class Tree (HTMLParser):
    def __init__ (self, data):
        super ().__init__ (convert_charrefs=True)
        self.root = self.cur = Node ('', {}, None)
        self.feed (data)
        self.close ()

    def handle_starttag (self, tag, attrs):
        n = Node (tag, attrs, self.cur)
        self.cur.children.append (n)
        if tag not in VOID:
            self.cur = n

    def handle_startendtag (self, tag, attrs):
        self.cur.children.append (Node (tag, attrs, self.cur))

    def handle_endtag (self, tag):
        n = self.cur
        while n.parent is not None and n.tag != tag:
            n = n.parent
        if n.parent is not None:
            self.cur = n.parent

    def handle_data (self, data):
        self.cur.children.append (data)

def norm (s):
    return re.sub (r'\s+', ' ', s).strip ()

BACK = {v: k for k, v in DIGITS.items ()}

def number (cell, lang):
    """ (number, unit) of a table cell """
    s = norm (cell)
    if lang == 'ar':
        need (not re.search ('[0-9]', s), f'{s!r} is not localised')
        s = ''.join (BACK.get (c, c) for c in s)
    n, _, unit = s.partition (' ')
    return Fraction (n.replace (',', '')), unit

def layoutNames ():
    return kit.layoutNames ()

def stats (name, i, mask=0):
    """ layout statistics with numbers of their own """
    fingers = {}
    hands = collections.defaultdict (int)
    n = 0
    for h in L.Direction:
        for f in L.FingerType:
            n += 1
            v = ((i*37 + n*n*13 + n) % 101) + 1
            if mask >> (n-1) & 1:
                continue
            fingers[(h, f)] = v
            hands[h] += v
    total = sum (hands.values ())
    hands = dict (hands)
    left, right = (hands.get (h, 0) for h in (L.LEFT, L.RIGHT))
    for h in L.Direction:
        hands.setdefault (h, 0)
    return dict (layout=name, hands=hands, fingers=fingers, buttonPresses=total,
            asymmetry=(left-right)/total if total else 0, hamzaImpact=(i*7 % 97)/1000, hamzaOnAlef=(i*5 % 89)/90)

def render (d, files, layouts):
    """ files: lists of documents """
    argv = ['-c']
    for i, docs in enumerate (files):
        fn = os.path.join (d, f'c{i}.yaml')
        with open (fn, 'w') as fd:
            for x in docs:
                if x is not None:
                    yaml.dump (x, fd)
                fd.write ('---\n')
        argv.append (fn)
    argv.append ('-l')
    for i, x in enumerate (layouts):
        fn = os.path.join (d, f'l{i}.pickle')
        with open (fn, 'wb') as fd:
            pickle.dump (x, fd)
        argv.append (fn)
    r = core.cli (P.render, argv, cwd=d)
    need (r.ret in (None, 0), f'exit status {r.ret}')
    return Tree (r.out.decode ('utf-8')).root

def corpora (values):
    out = []
    for i, (w, c) in enumerate (values):
        x = dict (source=dict (name=dict (en=f'Corpus {i}', ar=f'\u0627\u0628 {"".join (DIGITS[y] for y in str (i))}'), url=f'http://example.com/{i}'), stats=dict (words=w, characters=c))
        if i % 3 != 2:
            x['count'] = dict (num=(w*7+i) % 10000019, kind=dict (en='books', ar='\u0643\u062a\u0627\u0628'))
        out.append (x)
    return out

def checkTables (root, docs, what):
    n = 0
    tables = [t for t in root.find ('table') if any (a.attrs.get ('href', '').startswith ('http://example.com/') for a in t.find ('a')) or norm (t.text ()).find ('Total') >= 0 or '\u0645\u062c\u0645\u0648\u0639' in t.text ()]
    same (len (tables), 2, f'{what}: number of corpus tables')
    for lang, table in zip (('ar', 'en'), tables):
        rows = [[c for c in r.find ('td')] for r in table.find ('tr')]
        rows = [r for r in rows if r]
        want = {d['source']['url']: d for d in docs}
        times = collections.Counter (d['source']['url'] for d in docs)
        seen = collections.Counter ()
        total = None
        for r in rows:
            a = r[0].find ('a')
            if not a:
                need (total is None, f'{what}: several sums')
                total = r
                continue
            need (total is None, f'{what}: the sum is not the last row')
            url = a[0].attrs['href']
            seen[url] += 1
            need (seen[url] <= times[url], f'{what}: {url} unknown or repeated')
            d = want[url]
            same (norm (a[0].text ()), d['source']['name'][lang], f'{what}: name of {url}')
            cnt = d.get ('count')
            if cnt:
                num, kind = number (r[1].text (), lang)
                same ((num, kind), (cnt['num'], cnt['kind'][lang]), f'{what}: count of {url}')
            else:
                same (norm (r[1].text ()), '', f'{what}: count of {url}')
            for k, cell in zip (('words', 'characters'), r[2:]):
                v, unit = number (cell.text (), lang)
                bad = approxOk (d['stats'][k], v, unit, lang)
                need (bad is None, f'{what}: {k} of {url} ({lang}), {d["stats"][k]}: {bad}')
                n += 1
        same (dict (seen), dict (times), f'{what}: corpora')
        need (total is not None, f'{what}: no sum')
        for k, cell in zip (('words', 'characters'), total[-2:]):
            v, unit = number (cell.text (), lang)
            t = sum (d['stats'][k] for d in docs)
            bad = approxOk (t, v, unit, lang)
            need (bad is None, f'{what}: sum of {k} ({lang}), {t}: {bad}')
            n += 1
    return n

def width (e):
    return float (re.search (r'width:\s*([0-9.]+)%', e.attrs['style'])[1])

def checkLayouts (root, given, what):
    n = 0
    names = {x['layout']: x for x in given}
    last = None
    seen = []
    for e in root.iter ():
        i = (e.attrs.get ('id') or '').replace ('-heat', '')
        if i in names:
            last = i
        if 'fingerhandstats' not in (e.attrs.get ('class') or '').split ():
            continue
        need (last is not None, f'{what}: statistics of no layout')
        seen.append (last)
        st = names[last]
        total = st['buttonPresses'] or 1
        sides = [x for x in e.children if isinstance (x, Node) and x.attrs.get ('class') in ('left', 'right')]
        same ([x.attrs['class'] for x in sides], ['left', 'right'], f'{what} {last}: hands')
        for side, h in zip (sides, (L.LEFT, L.RIGHT)):
            pct = st['hands'].get (h, 0)/total*100
            text = norm (side.find (cls='hand')[0].text ())
            need (text.endswith ('%') and abs (float (text[:-1])-pct) <= 0.00501, f'{what} {last}: {h} is {text}, should be {pct}')
            need (abs (width (side)-pct) <= 0.000501, f'{what} {last}: width of {h}')
            order = ['little', 'ring', 'middle', 'index', 'thumb']
            fing = [x for x in side.find (cls='fingers')[0].children if isinstance (x, Node)]
            same ([x.attrs['class'] for x in fing], order if h == L.LEFT else order[::-1], f'{what} {last}: fingers')
            for x in fing:
                f = next (y for y in L.FingerType if y.name.lower () == x.attrs['class'])
                v = st['fingers'].get ((h, f), 0)
                need (abs (float (norm (x.text ()))-v/total*100) <= 0.00501, f'{what} {last}: {h} {f} is {x.text ()}, should be {v/total*100}')
                rel = v/st['hands'][h]*100 if st['hands'].get (h) else 0
                need (abs (width (x)-rel) <= 0.000501, f'{what} {last}: width of {h} {f} is {width (x)}, should be {rel}')
                n += 2
        asym = norm (e.find (cls='asymm')[0].text ())
        need (abs (float (asym.split ()[-1])-st['asymmetry']) <= 0.000501, f'{what} {last}: {asym}, should be {st["asymmetry"]}')
        n += 5
    same (sorted (seen), sorted (names), f'{what}: layouts')
    text = norm (root.text ())
    st = names['ar-osx']
    m = re.search (r'variants account for (\S+)% of button', text)
    need (m and abs (float (m[1])-st['hamzaImpact']*100) <= 0.0501, f'{what}: hamza share {m and m[1]}, should be {st["hamzaImpact"]}')
    m = re.search (r'since (\d+)\u2044(\d+)th of all', text)
    need (m, f'{what}: no share of hamza on alef')
    a, b = int (m[1]), int (m[2])
    x = Fraction (st['hamzaOnAlef'])
    best = min (abs (Fraction (round (x*d), d)-x) for d in range (1, 11))
    same (abs (Fraction (a, b)-x), best, f'{what}: hamza on alef is {a}/{b}, should be {float (x)}, distance')
    return n+2

def partitions (items):
    """ all ways to distribute consecutive items over files """
    items = list (items)
    n = len (items)
    for mask in range (1 << max (0, n-1)):
        out, cur = [], []
        for i, x in enumerate (items):
            cur.append (x)
            if i == n-1 or mask >> i & 1:
                out.append (cur)
                cur = []
        yield out

class Corpora (Suite):
    name = 'report-corpora'
    bounds = 'all lists of up to 3 corpora over 4 (thorough 6) pairs of words and characters, in every distribution over files, with empty documents before, after and (in every combination) in between, with the same name; the same document up to three times'
    VALUES = [(0, 1), (949, 999949), (50, 51), (999951, 10**9), (123456789, 98765432109), (2*10**12, 10**13)]
    def cases (self, tier):
        yield from words (range (4 if tier == 'quick' else 6), 3, 1)

    def check (self, idx, rec):
        docs = corpora ([self.VALUES[i] for i in idx])
        lay = [stats (n, i) for i, n in enumerate (layoutNames ())]
        with core.Scratch () as d:
            for files in partitions (docs):
                what = f'corpora {idx} in {[len (f) for f in files]}'
                root = render (d, files, lay)
                rec.step (checkTables (root, docs, what))
                rec.trace ()
            root = render (d, [[None] + files[0]] + files[1:] + [[None]], lay[::-1])
            rec.step (checkTables (root, docs, f'corpora {idx} with empty documents'))
            # in one file, after every single one
            for m in range (1, 1 << len (docs)):
                one = [x for i, doc in enumerate (docs) for x in ([doc, None] if m >> i & 1 else [doc])]
                root = render (d, [one], lay)
                rec.step (checkTables (root, docs, f'corpora {idx} with empty documents after {m:b}'))
                rec.trace ()
            if len (idx) == 1:
                # the same document more than once
                for k in (2, 3):
                    for files in partitions (docs*k):
                        root = render (d, files, lay)
                        rec.step (checkTables (root, docs*k, f'corpora {idx} {k} times'))
                        rec.trace ()
            # several parts of the same corpus
            named = [dict (x, name='corpus', date='2019-01-01', extractor=dict (name='x', url='http://example.org/'), source=dict (x['source'], name=docs[0]['source']['name'])) for x in docs]
            root = render (d, [named], lay)
            rec.step (checkTables (root, named, f'corpora {idx} with the same name'))
            root = render (d, [docs[::-1]], lay)
            rec.step (checkTables (root, docs, f'corpora {idx} in reverse'))
            rec.trace (2)
        rec.state (idx)

class Layouts (Suite):
    name = 'report-layouts'
    bounds = 'every rotation of 12 (thorough 36) sets of values over the layouts, every subset of unused fingers with up to 2 (thorough: any number of) members, and all fingers of a hand or both hands unused; layouts with the same number of button presses'
    def cases (self, tier):
        for r in range (12 if tier == 'quick' else 36):
            yield ('rotate', r)
        for r in range (4):
            yield ('equal', r)
        for m in range (1024):
            if tier == 'thorough' or bin (m).count ('1') <= 2 or m & 31 == 31 or m >> 5 == 31:
                yield ('mask', m)

    def check (self, case, rec):
        kind, r = case
        names = layoutNames ()
        if kind == 'equal':
            # as many button presses with every layout
            lay = [stats (n, 0) for n in names]
            for i, x in enumerate (lay):
                keys, values = list (x['fingers']), list (x['fingers'].values ())
                k = (i+r) % len (keys)
                x['fingers'] = dict (zip (keys, values[k:] + values[:k]))
                for h in x['hands']:
                    x['hands'][h] = sum (v for (g, f), v in x['fingers'].items () if g == h)
                x['asymmetry'] = (x['hands'][L.LEFT]-x['hands'][L.RIGHT])/x['buttonPresses']
        elif kind == 'rotate':
            lay = [stats (n, i+r) for i, n in enumerate (names)]
        else:
            lay = [stats (n, i, r if (i+r) % 3 else 0) for i, n in enumerate (names)]
        k = r % len (lay)
        lay = lay[k:] + lay[:k]
        with core.Scratch () as d:
            root = render (d, [corpora ([(1, 2)])], lay)
        rec.step (checkLayouts (root, lay, f'{case}'))
        rec.trace ()
        rec.state (case)

SUITES = [Approx (), Fractions (), Strings (), Corpora (), Layouts ()]
