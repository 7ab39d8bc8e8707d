K = r'''
import contextlib, io, os, pickle, random, re, subprocess, sys, tempfile, yaml
from types import SimpleNamespace as NS
from lulua.layout import GenericLayout, defaultLayouts, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
k = defaultKeyboards['ibmpc105']
def D (*layers):
    return {'name': 't', 'layout': [{'modifier': m, 'layer': l} for m, l in layers]}
f = lambda b, m=(): C (frozenset (k[x] for x in m), frozenset ([k[b]]))
def scratch (files):
    d = tempfile.TemporaryDirectory ()
    for n, x in files.items ():
        with open (os.path.join (d.name, n), 'w') as fd:
            yaml.dump (x, fd)
    return d
def render (func, layout, name='lay'):
    import lulua.render as R
    with scratch ({name: layout}) as d:
        old = os.getcwd ()
        os.chdir (d)
        try:
            getattr (R, func) (NS (keyboard='ibmpc105', layout=name, output='out'))
            with open ('out', newline='') as fd:
                return fd.read ()
        finally:
            os.chdir (old)
def stat (func, stats, **kw):
    import lulua.stats as S
    class Out (io.StringIO):
        pass
    out = Out ()
    out.buffer = io.BytesIO ()
    sin, sout = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = NS (buffer=io.BytesIO (pickle.dumps (stats))), out
    try:
        getattr (S, func) (NS (keyboard='ibmpc105', **kw))
    finally:
        sys.stdin, sys.stdout = sin, sout
    return out.getvalue (), out.buffer.getvalue ()
'''

Seed ('c17-local', 'C17', [('lulua/util.py', "                yield self.__getitem__ (res[:-len ('.yaml')], onlyRes=True)", "                yield self[res]")],
K + r'''
with scratch ({'ar-lulua.yaml': D (([[]], {'Dl1': 'x'}))}) as d:
    os.chdir (d)
    names = [l.name for l in defaultLayouts]
    os.chdir ('/')
assert 't' not in names and 'ar-lulua' in names, names
''', 'a file with the name of a packaged resource in the current directory while iterating', 'the local file is taken instead of the packaged resource')

Seed ('c17-reader', 'C17', [('lulua/util.py', "            except yaml.reader.ReaderError:\n                pass\n", "            except yaml.YAMLError:\n                pass\n")],
K + r'''
with scratch ({}) as d:
    os.chdir (d)
    with open ('ar-lulua', 'w') as fd:
        fd.write ('name: [unclosed')
    try:
        l = defaultLayouts['ar-lulua']
    except Exception as e:
        l = None
    os.chdir ('/')
assert l is None, 'the local file of this name is broken, but something else was loaded'
''', 'a local file of that name which is not valid YAML', 'the packaged resource is silently used instead')

Seed ('c17-cache', 'C17', [('lulua/util.py', "    __slots__ = ('defaultDir', 'deserialize')\n", "    __slots__ = ('defaultDir', 'deserialize', 'cache')\n"),
    ('lulua/util.py', "        self.deserialize = deserialize\n", "        self.deserialize = deserialize\n        # parsing yaml is slow\n        self.cache = {}\n"),
    ('lulua/util.py', "                    return self.deserialize (yaml.safe_load (fd))", "                    data = fd.read ()\n                    if data not in self.cache:\n                        self.cache[data] = yaml.safe_load (data)\n                    return self.deserialize (self.cache[data])")],
K + r'''
a = defaultLayouts['ar-lulua']
a.layers[0].layout['Dl1'] = 'changed'
assert defaultLayouts['ar-lulua'].layers[0].layout['Dl1'] != 'changed'
''', 'modifying a loaded layout and loading it again', 'loaded objects share their data')

Seed ('c18-klavaro', 'C18', [('lulua/render.py', "            fd.write (''.join (l).strip ('\\n'))", "            fd.write (''.join (l).strip ())")],
K + r'''
out = render ('renderKlavaro', D (([[]], {'Dl1': 'a'}), ([['El_shift']], {'Bl1': 'b'}))).split ('\n')
assert len (out[0]) == 13 and out[2][0] == 'a', out
''', 'a layout without text on the first or last keys', 'leading empty keys are lost and all others of the row move')

Seed ('c18-nfkc', 'C18', [('lulua/render.py', "            # android cannot process multiple characters per button, thus find\n            # a composed version (NFC) if possible\n            buttonText = [unicodedata.normalize ('NFC', x)", "            # android cannot process multiple characters per button, thus find\n            # a composed version if possible\n            buttonText = [unicodedata.normalize ('NFKC', x)")],
K + r'''
out = render ('renderAsk', D (([[]], {'Dl1': '\u2026', 'Dl2': '\u0627\u0654'})))
assert 'codes="8230"' in out and 'codes="1571"' in out, out
''', 'a layout with characters that have a compatibility decomposition', 'they are replaced')

Seed ('c18-keyman', 'C18', [('lulua/render.py', "                    comb = ' '.join ([x.scancode['keyman'] for x in m] + [btn.scancode['keyman']])\n", "                    if m and text == layout.layers[0].layout.get (btn):\n                        # falls through to the base layer\n                        continue\n                    comb = ' '.join ([x.scancode['keyman'] for x in m] + [btn.scancode['keyman']])\n")],
K + r'''
out = render ('renderKeyman', D (([[]], {'Dl1': 'a'}), ([['El_shift']], {'Dl1': 'a', 'Dl2': 'b'})))
assert '+ [SHIFT K_A] > U+0061' in out and '+ [K_A] > U+0061' in out, out
''', 'a key with the same text on two layers', 'it types nothing on the second one')

Seed ('c19-unused', 'C19', [('lulua/render.py', "            if len (list (filter (lambda x: x is not None, text))) == 0:", "            if text[0] is None:")],
K + r'''
out = render ('renderWinKbd', D (([[]], {'Dl1': 'a'}), ([['El_shift']], {'Dl1': 'b', 'Dl2': 'c'})), 'ar-lulua')
assert '0x0063u' in out and '0x0062u' in out
''', 'a key without text on the base layer', 'its other layers are lost')

Seed ('c19-mod', 'C19', [('lulua/winkbd.py', "        keys = set (map (lambda x: x[0], filter (lambda x: i & x[1], vkToBitsTable)))\n        try:\n            layer = vkToLayer.index (keys)\n", "        keys = set (map (lambda x: x[0], filter (lambda x: i & x[1], vkToBitsTable)))\n        # Alt does not select a layer\n        keys.discard (VirtualKey.MENU)\n        try:\n            layer = vkToLayer.index (keys)\n")],
r'''
from lulua.winkbd import charModifiers
import re
n = [int (x, 16) for x in re.findall (r'^\t\t(0x[0-9a-f]+), /\*', charModifiers (), re.M)]
assert n[0] == 0 and n[1] == 1
# Alt alone, and AltGr (Control+Alt)
assert n[4] == n[6] == 0xf, n
''', 'Alt is held', 'characters are typed instead of executing menu shortcuts')

Seed ('c19-lf', 'C19', [('lulua/render.py', "            if s == '\\n':\n                s = '\\r'\n            return s\n", "            if s == '\\n' and btn.name == 'CD_ret':\n                s = '\\r'\n            return s\n")],
K + r'''
out = render ('renderWinKbd', D (([[]], {'Dl1': '\n', 'CD_ret': '\n'})), 'ar-lulua')
assert '0x000Au' not in out and out.count ('0x000Du') == 2
''', 'a line feed on another key than return', 'it is not converted')

SVG = K + r'''
from lulua.render import Renderer
def svg (layout, keyboard=k, **kw):
    l = GenericLayout.deserialize (layout).specialize (keyboard)
    return Renderer (keyboard, layout=l, writer=Writer (l), **kw).render ()
'''
Seed ('c20-corner', 'C20', [('lulua/render.py', "                buttonText = list (map (displayText, self.layout.getButtonText (btn)))\n", "                buttonText = [displayText (x) for x in self.layout.getButtonText (btn) if x is not None]\n")],
SVG + r'''
g, _ = svg (D (([[]], {'Dl1': 'a'}), ([['El_shift']], {'Dl2': 'b'})))
s = g.tostring ()
assert 'class="layer-2">b<' in s, s[:200]
''', 'a key without text on a lower layer', 'the label is drawn in the corner of another layer')

Seed ('c20-width', 'C20', [('lulua/render.py', "            maxWidth = max (cursor[0], maxWidth)\n", "            maxWidth = cursor[0]\n")],
SVG + r'''
from lulua.keyboard import PhysicalKeyboard
d = k.serialize ()
d['rows'][-1] = (d['rows'][-1][0], d['rows'][-1][1][:-2])
kk = PhysicalKeyboard.deserialize (d)
_, size = svg (D (([[]], {'Dl1': 'a'})), kk)
_, want = svg (D (([[]], {'Dl1': 'a'})))
assert size == want, (size, want)
''', 'a keyboard whose last row is not the longest one', 'the picture is too small')

Seed ('c20-marker', 'C20', [('lulua/render.py', "            if btn.isMarked:\n", "            if btn.isMarked and not isModifier:\n")],
SVG + r'''
m = next (x.name for x in k.keys () if x.isMarked)
g, _ = svg (D (([[]], {'Bl1': 'a'}), ([[m]], {'Bl1': 'b'})))
assert g.tostring ().count ('class="marker"') == sum (x.isMarked for x in k.keys ())
''', 'a layout which uses a marked button as modifier', 'its marker is missing')

Seed ('c21-vk', 'C21', [('lulua/layout.py', "            'OEM_1': 'Dr3',\n            'OEM_7': 'Dr2',\n", "            'OEM_1': 'Dr3',\n            'OEM_7': 'Dr1',\n")],
K + r'''
l, _ = GenericLayout.fromKlc (io.StringIO ('LAYOUT ;x\n28 OEM_7 0 0027 0022\n2b OEM_5 0 005c 007c\n'))
assert l[0] == {'Dr2': "'", 'Dr1': '\\'}, l[0]
''', 'a file with the virtual key OEM_7', 'two virtual keys go to the same button')

Seed ('c21-cols', 'C21', [('lulua/layout.py', "                    code = list (map (codeToText, code))\n", "                    # columns not used at the end can be omitted\n                    code = [x for x in map (codeToText, code) if x is not None]\n")],
K + r'''
l, _ = GenericLayout.fromKlc (io.StringIO ('LAYOUT ;x\n1e A 0 0061 -1 -1 -1 00e1 00c1\n'))
assert l[0] == {'Dl1': 'a'} and l[4] == {'Dl1': 'a\u0301'} and not l[1], l
''', 'a key without a character in a column in between', 'later characters move to another layer')

ST = K + r'''
from collections import defaultdict
def S (combos=(), triads=(), words=()):
    from lulua.stats import makeCombined
    c = makeCombined (k)
    for x, n in combos:
        c['simple'].combinations[x] += n
        for b in x:
            c['simple'].buttons[b] += n
    for x, n in triads:
        c['triads'].triads[x] += n
    for x, n in words:
        c['words'].words[x] += n
    return c
'''
Seed ('c22-cutoff', 'C22', [('lulua/plot.py', "        if topTriadsWeight < weightSum*args.cutoff:\n", "        if topTriadsWeight + data['weight'] <= weightSum*args.cutoff:\n")],
ST + r'''
t = [(tuple (f (x) for x in n), w) for n, w in ((('Dl1', 'Dl2', 'Dl3'), 60), (('Dl2', 'Dl2', 'Dl3'), 40))]
out, _ = stat ('triadfreq', S (triads=t), layout='ar-lulua', limit=0, cutoff=0.5, sort='weight', reverse=True)
assert len (out.strip ().split ('\n')) == 1 and out.split ()[1] == '60', out
''', 'a cutoff which the next triad crosses', 'the triads listed do not contribute the requested share')

Seed ('c22-hamza', 'C22', [('lulua/stats.py', "        combPerGroup[letter] += sum (map (lambda x: combStats[x], combinations))\n", "        combPerGroup[letter] += combStats[writer.chooseCombination (combinations)]\n")],
ST + r'''
d = D (([[]], {'Dl1': '\u0627', 'Dr3': '\u0627', 'Dl2': '\u064a', 'Dl3': '\u0648', 'Dl4': '\u0627\u0654'}))
with scratch ({'lay': d}) as x:
    os.chdir (x)
    _, out = stat ('layoutstats', S ([(f ('Dl1'), 3), (f ('Dr3'), 5), (f ('Dl4'), 2)]), layout='lay')
    os.chdir ('/')
assert abs (pickle.loads (out)['hamzaOnAlef'] - 0.2) < 1e-9
''', 'a layout with two positions for alef', 'only one of them is counted')

Seed ('c22-lastbin', 'C22', [('lulua/plot.py', "    x.append (cumulativeWeight)\n    y.append (cumulativeEffort)\n\n", "")],
ST + r'''
n = ['Dl1', 'Dl2', 'Dl3', 'Dl4', 'Cr4', 'Cr5', 'Cr6']
t = [((f (a), f (b), f (c)), 1 + (a == b == c)*600) for a in n for b in n for c in n]
_, out = stat ('triadEffortData', S (triads=t), layout='ar-lulua')
o = pickle.loads (out)
assert o['x'][-1] == 1 and o['y'][-1] == 1, (o['x'][-1], o['y'][-1])
''', 'rare triads which do not fill the last bin', 'the cumulative data does not end at one')

Seed ('c23-double', 'C23', [('lulua/report.py', "        i /= base\n", "        i = round (i/base, 1)\n")],
r'''
from decimal import Decimal
from lulua.report import approx
assert approx (1149960) == (Decimal ('1.1'), 'million'), approx (1149960)
''', 'a number which is rounded up to a half on the way to its unit', 'numbers are rounded twice')

Seed ('c23-frac', 'C23', [('lulua/report.py', "    f = Fraction (n).limit_denominator (maxdenom)\n", "    f = Fraction (round (n, 2)).limit_denominator (maxdenom)\n")],
r'''
from lulua.report import fraction
import math
from fractions import Fraction
for i in range (20001):
    n = i/20000
    a, den = map (int, fraction (n).split ('\u2044'))
    best = min (abs (Fraction (num, d)-Fraction (n)) for d in range (1, 11) for num in (math.floor (n*d), math.ceil (n*d)))
    assert abs (Fraction (a, den)-Fraction (n)) == best, n
''', 'a number close to the middle of two fractions', 'not the closest fraction')

Seed ('c23-files', 'C23', [('lulua/report.py', "            corpus.extend (filter (lambda x: x is not None, yaml.safe_load_all (fd)))\n", "            for d in yaml.safe_load_all (fd):\n                if d is None:\n                    # nothing follows\n                    break\n                corpus.append (d)\n")],
K + r'''
import lulua.report as R
meta = lambda n, w: {'source': {'name': {'en': n, 'ar': n}, 'url': 'u'}, 'extractor': {'name': 'x'}, 'date': 2019, 'count': {'num': 1, 'kind': {'en': 'a', 'ar': 'b'}}, 'stats': {'words': w, 'characters': 10*w}}
seen = {}
class Tpl:
    def stream (self, **kw):
        seen.update (kw)
        return NS (dump=lambda x: None)
from jinja2 import Environment
from unittest import mock
with scratch ({}) as d:
    os.chdir (d)
    # an empty corpus statistics file in between
    open ('c', 'w').write (yaml.dump (meta ('one', 3)) + '---\n' + '---\n' + yaml.dump (meta ('two', 4)) + '---\n')
    with mock.patch.object (Environment, 'get_template', lambda self, n: Tpl ()), mock.patch.object (sys, 'argv', ['x', '-c', 'c', '-l']):
        try:
            sys.argv = ['x', '-c', 'c', '-l', 's']
            pickle.dump ({'layout': 'l'}, open ('s', 'wb'))
            R.render ()
        finally:
            os.chdir ('/')
assert seen['corpustotal'] == {'words': 7, 'characters': 70}, seen['corpustotal']
''', 'an empty document between two corpora of one file', 'corpora after it are ignored')

Seed ('c24-mark', 'C24', [('lulua/util.py', "    return invMap.get (text, text)", "    return ''.join (invMap.get (x, x) for x in text)")],
r'''
from lulua.util import displayText
assert displayText (' ') == '\u2423' and displayText ('a b') == 'a b'
''', 'a string of several characters with white space', 'it is not shown unchanged')

Seed ('c24-to', 'C24', [('lulua/util.py', "short = ''.join (map (lambda x: x[0], stopwords.sub(' ', cleanName).split (' ')))", "short = ''.join (map (lambda x: x[0], stopwords.sub(' ', cleanName).split (' ')))[:3]")],
r'''
from lulua.util import displayText
assert displayText ('\u206d') == '[AAFS]', displayText ('\u206d')
assert displayText ('\u200e') == '[LRM]'
''', 'a control character whose name has more than three words', 'its initials are truncated')

Seed ('c25-writer', 'C25', [('lulua/text.py', "            # extract (can be multiple texts per item)\n            i = 0\n", "            # extract (can be multiple texts per item)\n            i = 0\n            # init a new writer for every item\n            w = Writer (layout)\n"),
    ('lulua/text.py', "                # init a new writer for every item\n                w = Writer (layout)\n                # stats\n", "                # stats\n")],
r'''
import io, os, sys, pickle, subprocess, tarfile, tempfile
import brotli
RUN = 'import sys; from lulua.text import write; sys.exit (write ())'
COMBINE = 'import sys; from lulua.stats import main; sys.exit (main ())'
def corpus (d, groups):
    files = []
    for i, g in enumerate (groups):
        b = io.BytesIO ()
        with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
            for j, text in enumerate (g):
                data = text.encode ()
                ti = tarfile.TarInfo (f'{j}.txt')
                ti.size = len (data)
                t.addfile (ti, io.BytesIO (data))
        p = os.path.join (d, f'{i}.tar.br')
        open (p, 'wb').write (brotli.compress (b.getvalue ()))
        files.append (p)
    p = subprocess.run ([sys.executable, '-c', RUN, '-j', '1', 'ar-lulua', 'file', 'brotli', 'tar', 'text'], input='\n'.join (files).encode () + b'\n', stdout=subprocess.PIPE, check=True)
    p = subprocess.run ([sys.executable, '-c', COMBINE, 'combine'], input=p.stdout, stdout=subprocess.PIPE, check=True)
    return pickle.loads (p.stdout)
# every combination of what was typed last and what comes first
ends = '\u0627\u0628\u062a\u062b\u062c\u062d\u062e\u062f\u0631\u0633\u0634\u0639\u0641\u0642\u0643\u0644\u0645\u0646\u0647\u0648\u064a'
with tempfile.TemporaryDirectory () as d:
    for first in ('\u064b', '\u0640', '\u061f', '\u061b', '\u060c', '\u0649', '\u0621', '\u0652', '\u0651', '\u064e', ' ', '('):
        texts = [first + e for e in ends]
        one = corpus (d, [texts])
        many = corpus (d, [[t] for t in texts])
        for k in one:
            assert one[k] == many[k], (first, k)
''', 'several documents in one archive, a document which starts with a string several combinations are equally good for', 'the choice at the beginning of a document depends on the previous document, statistics depend on how documents are distributed over archives')
