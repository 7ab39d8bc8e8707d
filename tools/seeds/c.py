K = r'''
from lulua.layout import GenericLayout, defaultLayouts, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
k = defaultKeyboards['ibmpc105']
def G (*layers):
    return GenericLayout.deserialize ({'name': 't', 'layout': [{'modifier': m, 'layer': l} for m, l in layers]})
f = lambda b, m=(): C (frozenset (k[x] for x in m), frozenset ([k[b]]))
'''

Seed ('c09-zero', 'C09', [('lulua/text.py', "            if num is not None and len (self.buf) >= num:", "            if num and len (self.buf) >= num:"),
    ('lulua/text.py', "        if num is not None:\n            b = self.buf[0:num]", "        if num:\n            b = self.buf[0:num]")],
r'''
import io, brotli
from lulua.text import BrotliFile
b = BrotliFile (io.BytesIO (brotli.compress (b'hello world')))
out = [b.read (5), b.read (0), b.read (6)]
assert out == [b'hello', b'', b' world'], out
''', 'a read of zero bytes', 'read (0) delivers (and loses) everything')

Seed ('c09-align', 'C09', [('lulua/text.py', "        into = pos%blocksize\n        if into != 0:\n            pad = blocksize-into\n            fd.read (pad)\n            pos += pad\n",
"        if size > 0:\n            pad = blocksize-pos%blocksize\n            fd.read (pad)\n            pos += pad\n")],
r'''
import io, tarfile
from lulua.text import filterTar
def unpack (bodies):
    o = io.BytesIO ()
    with tarfile.open (fileobj=o, mode='w', format=tarfile.GNU_FORMAT) as t:
        for i, b in enumerate (bodies):
            ti = tarfile.TarInfo (f'f{i}')
            ti.size = len (b)
            t.addfile (ti, io.BytesIO (b))
    o.seek (0)
    return [x.read () for x in filterTar (o)]
for bodies in ([b'a', b'b'*511, b'c'], [b'a'*512, b'b'], [b'a', b'b'*1024, b'c', b'd']):
    assert unpack (bodies) == bodies
''', 'a member whose size is a multiple of the block size', 'the header of the member after it is skipped')

Seed ('c10-subs', 'C10', [('lulua/text.py', "        out.append (getText (s.childNodes).strip ())\n", "        line = getText (s.childNodes).strip ()\n        # same line, just another time frame\n        if not out or out[-1] != line:\n            out.append (line)\n")],
r'''
import xml.dom.minidom
from lulua.text import filterAvail
d = xml.dom.minidom.parseString ('<d><s>a</s><s>b</s><s>b</s><s>a</s></d>')
assert list (filterAvail['opensubtitles'] (d)) == ['a\nb\nb\na']
''', 'the same subtitle twice in a row', 'repeated subtitles are lost')

Seed ('c10-wikistart', 'C10', [('lulua/text.py', "            if event == 'end' and elem.tag == '{http://www.mediawiki.org/xml/export-0.10/}text':\n", "            if event == 'start' and elem.tag == '{http://www.mediawiki.org/xml/export-0.10/}text':\n")],
r'''
import bz2, contextlib, io, json, os, sys, tempfile
from lulua.text import extractMediawiki
pages = ['a'*10, 'b'*40000, 'c', 'd'*100000]
ns = 'http://www.mediawiki.org/xml/export-0.10/'
d = f'<mediawiki xmlns="{ns}">' + ''.join (f'<page><revision><text>{p}</text></revision></page>' for p in pages) + '</mediawiki>'
with tempfile.NamedTemporaryFile () as fd:
    fd.write (bz2.compress (d.encode ()))
    fd.flush ()
    sys.argv = ['x', fd.name]
    o = io.StringIO ()
    with contextlib.redirect_stdout (o):
        extractMediawiki ()
assert [json.loads (l) for l in o.getvalue ().split ('\n') if l] == pages
''', 'a page which crosses a read buffer boundary of the XML parser', 'the text of such pages is truncated or lost')

Seed ('c11-cr', 'C11', [('lulua/text.py', ".replace ('\\r\\n', '\\n')", ".replace ('\\r', '')")],
r'''
import queue
from lulua.layout import defaultLayouts
from lulua.keyboard import defaultKeyboards
from lulua.text import writeWorker
def unknown (text):
    i, o, s = queue.Queue (), queue.Queue (), queue.Queue ()
    i.put (text)
    i.put (None)
    writeWorker (defaultLayouts['ar-lulua'].specialize (defaultKeyboards['ibmpc105']), [lambda x: [x]], i, o, s, False)
    return o.get ()['simple'].unknown
assert unknown ('\u0627\r\n\u0628') == {}
assert unknown ('\u0627\r\u0628') == {'\r': 1}
''', 'a carriage return without line feed', 'single carriage returns are dropped')

Seed ('c12-simul', 'C12', [('lulua/carpalx.py', "            simultaneousPenalty = (numKeys-1)*kS\n", "            simultaneousPenalty = kS if numKeys > 1 else 0\n")],
K + r'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (defaultLayouts['ar-lulua'].specialize (k)))
a = f ('Dl1', ['El_shift', 'Fr_altgr'])
b = f ('Dl1')
k1, k2, k3, kS = models['mod01'].k123S
assert abs (c._baseEffort ((a, b, b), lambda x: 0) - 2*kS*k1) < 1e-9
''', 'a combination of three or more buttons', 'only one surcharge is added')

Seed ('c13-cache', 'C13', [('lulua/carpalx.py', "        self._cache : Dict[Tuple[ButtonCombination], float] = dict ()\n", "        self._cache = triadCache\n"),
    ('lulua/carpalx.py', "class Carpalx:\n", "# shared between all instances\ntriadCache : Dict[Tuple[ButtonCombination], float] = dict ()\n\nclass Carpalx:\n")],
K + r'''
from lulua.carpalx import Carpalx, models
w = Writer (defaultLayouts['ar-lulua'].specialize (k))
t = (f ('Cl5'), f ('Dl1'), f ('Dr5'))
def effort (m):
    c = Carpalx (models[m], w)
    c.addTriad (t, 1)
    return c.effort
assert effort ('mod01') != effort ('salvo')
''', 'two instances with different models in one process', 'the second one gets efforts of the first one')

Seed ('c13-order', 'C13', [('lulua/carpalx.py', "        ret = self._cache.get (triad)\n", "        # typing backwards is the same\n        ret = self._cache.get (triad, self._cache.get (triad[::-1]))\n")],
K + r'''
from lulua.carpalx import Carpalx, models
w = Writer (defaultLayouts['ar-lulua'].specialize (k))
t = (f ('Cl5'), f ('Dl1'), f ('Er4'))
def effort (*ts):
    c = Carpalx (models['mod01'], w)
    for x in ts:
        c.addTriad (x, 1)
    for x in ts[:-1]:
        c.removeTriad (x, 1)
    return c.effort
assert abs (effort (t[::-1], t) - effort (t)) < 1e-9
''', 'a triad whose reverse was evaluated before', 'the value of a triad depends on the history')

Seed ('c14-alias', 'C14', [('lulua/optimize.py', "                    self.best = (self.state.copy (), newEnergy)", "                    self.best = (self.state, newEnergy)")],
r'''
from lulua.optimize import Annealer
class A (Annealer):
    def __init__ (self, diffs):
        super ().__init__ ([0])
        self.diffs = list (diffs)
    def mutate (self):
        d = self.diffs.pop (0)
        self.state[0] += d
        return d
s, e = A ([-5, 1]).run (2)
assert (s, e) == ([-5], -5), (s, e)
''', 'an accepted change after the best state, mutated in place', 'the returned state is not the one its energy belongs to')

Seed ('c14-le', 'C14', [('lulua/optimize.py', "            if energyDiff < 0 or relDiff < acceptDiff:", "            if energyDiff <= 0 or relDiff < acceptDiff:")],
r'''
from lulua.optimize import Annealer
class A (Annealer):
    def __init__ (self, diffs):
        super ().__init__ ([0])
        self.diffs = list (diffs)
    def mutate (self):
        self.state.append (1)
        return self.diffs.pop (0)
a = A ([0])
a.run (1)
assert a.state == [0], a.state
''', 'a first mutation without any change of the energy', 'it is kept although there was no change yet to compare it to')

OPT = K + r'''
import contextlib, io, pickle, random, sys, yaml
from unittest import mock
import lulua.optimize as O
from lulua.carpalx import models
'''
Seed ('c15-xor', 'C15', [('lulua/optimize.py', "        affected = set (chain (self.stateToTriad[a], self.stateToTriad[b]))\n", "        affected = self.stateToTriad[a] ^ self.stateToTriad[b]\n")],
OPT + r'''
l = defaultLayouts['ar-lulua'].specialize (k)
t = [((f ('Dl1'), f ('Cr4'), f ('Dl3')), 5.0), ((f ('Dl2'), f ('Dl2'), f ('Dl3')), 2.0)]
keys = [(0, k[x]) for x in ('Dl1', 'Cr4')]
t[0] = ((f ('Dl1'), f ('Cr4'), f ('Dl1')), 5.0)
o = O.LayoutOptimizer (dict (zip (keys, keys)), [t[0]], l, [], Writer (l), models['mod01'])
o._resetEnergy ()
o.mutate ()
have = o.energy ()
o._resetEnergy ()
assert abs (have-o.energy ()) < 1e-9
''', 'a triad that contains both swapped keys', 'its effort is not updated')

Seed ('c15-layerpin', 'C15', [('lulua/optimize.py', "                (a[0], None) in self.pins and newa[0] != a[0] or \\\n                (b[0], None) in self.pins and newb[0] != b[0]:", "                (a[0], None) in self.pins and newa[0] != a[0]:")],
OPT + r'''
l = defaultLayouts['ar-lulua'].specialize (k)
keys = [(i, k[x]) for i in (0, 1) for x in ('Dl1', 'Cr4')]
random.seed (0)
for i in range (20):
    o = O.LayoutOptimizer (dict (zip (keys, keys)), [((f ('Dl1'), f ('Cr4'), f ('Dl3')), 5.0)], l, [(0, None)], Writer (l), models['mod01'])
    o.mutate (withEnergy=False)
    m = o.state.buttonMap
    assert all (v[0] == 0 for (i, _), v in m.items () if i == 0)
''', 'a key of a pinned layer is drawn second', 'it leaves its layer')

Seed ('c16-modorder', 'C16', [('lulua/layout.py', "            for m in l.modifier:\n                self._modifierToLayer[m] = (i, l)\n", "            for m in l.modifier:\n                self._modifierToLayer[m] = (i, l)\n                # a modifier alone is sufficient to recognize it\n                for b in m:\n                    self._modifierToLayer.setdefault (frozenset ([b]), (i, l))\n")],
K + r'''
l = G (([[]], {'Dl1': 'a'}), ([['El_shift', 'Fr_altgr']], {'Dl1': 'b'})).specialize (k)
assert not l.isModifier (frozenset ([k['El_shift']]))
assert l.isModifier (frozenset ([k['El_shift'], k['Fr_altgr']]))
''', 'a layer selected by two buttons', 'single buttons are reported as modifiers')

Seed ('c16-copy', 'C16', [('lulua/layout.py', "        layers = copy.deepcopy (self.layers)\n", "        layers = [Layer (l.modifier, l.layout.copy ()) for l in self.layers]\n")],
K + r'''
l = G (([[]], {'Dl1': 'a'}), ([['El_shift']], {'Dl1': 'b'})).specialize (k)
c = l.copy ()
c.layers[1].modifier.append (frozenset ([k['Er_shift']]))
assert l.layers[1].modifier == [frozenset ([k['El_shift']])]
''', 'changing the modifiers of a copied layout', 'the original changes as well')

Seed ('c16-marked', 'C16', [('lulua/keyboard.py', "        d = super ().serialize ()\n        d['span'] = self.span\n        return d\n", "        d = super ().serialize ()\n        d['span'] = self.span\n        # too large to be marked\n        d.pop ('isMarked', None)\n        return d\n")],
K + r'''
from lulua.keyboard import Button, MultiRowButton
b = Button.deserialize (MultiRowButton ('x', 2, isMarked=True).serialize ())
assert b.isMarked and b.span == 2
''', 'a marked button which spans several rows', 'the mark is lost')

Seed ('c10-tei', 'C10', [('lulua/text.py', "                    out.append (getText (s.childNodes))\n", "                    out.append (' '.join (getText (s.childNodes).split ()))\n")],
r"""
import xml.dom.minidom
from lulua.text import filterAvail
d = xml.dom.minidom.parseString ('<t><text><body><p><s>a\u00a0b c</s><s>d</s></p></body></text></t>')
assert list (filterAvail['tei2'] (d)) == ['a\u00a0b c\nd\n']
""", 'white space other than single spaces in a sentence', 'sentences are modified')

Seed ('c10-xml', 'C10', [('lulua/text.py', "    except Exception:\n        logging.error (f'invalid xml document {fd}')\n", "    except xml.parsers.expat.ExpatError:\n        logging.error (f'invalid xml document {fd}')\n")],
r"""
import io
from lulua.text import filterAvail, apply
docs = [b'<a>1</a>', b'<?xml version="1.0" encoding="utf-7"?><a>2</a>', b'<a', b'<a>3</a>']
out = list (apply ([io.BytesIO, ], [])) or list (apply ([lambda x: [io.BytesIO (x)], filterAvail['xml']], docs))
assert len (out) == 2
""", 'a document the parser rejects with another exception than ExpatError (unknown encoding)', 'the import aborts')

Seed ('c11-digits', 'C11', [('lulua/text.py', "    return ''.join (map (lambda x: m.get (x, x), text))", "    def one (x):\n        # all kinds of digits\n        if x.isdecimal ():\n            x = str (int (x))\n        return m.get (x, x)\n    return ''.join (map (one, text))")],
r"""
from lulua.text import mapChars, charMap
assert mapChars ('1\u0661', charMap) == '\u0661'*2
assert mapChars ('\u06f1\uff11', charMap) == '\u06f1\uff11'
""", 'digits of another script in the text', 'they are replaced as well')

Seed ('c12-main', 'C12', [('lulua/carpalx.py', "                for singleBtnTriad in product (*map (iter, triad))]", "                for singleBtnTriad in product (*(x.buttons for x in triad))]")],
K + r"""
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (defaultLayouts['ar-lulua'].specialize (k)))
best = min ([c._strokePath (t) for t in ((k['El_shift'], k['Dr3'], k['Dr4']), (k['Dr3'], k['Dr3'], k['Dr4']))], key=lambda s: sum (a*b for a, b in zip (models['mod01'].fHRF, s)))
t = (f ('Dr3', ['El_shift']), f ('Dr3'), f ('Dr4'))
s = sum (a*b for a, b in zip (models['mod01'].fHRF, best))
bb = c._baseEffort (t, lambda x: models['mod01'].baselineEffort[x.name])
pp = c._baseEffort (t, c._penalty)
w = models['mod01'].kBPS
assert abs (c._triadEffort (t) - (w[0]*bb+w[1]*pp+w[2]*s)) < 1e-9
""", 'a triad with a modifier whose path is easier than the one of the main button', 'modifiers are ignored in the stroke path')

Seed ('c12-data', 'C12', [('lulua/carpalx.py', "        'Cr5': 2.0,\n        'Cr4': 2.0,\n        'Cr3': 2.2,\n", "        'Cr5': 2.0,\n        'Cr4': 2.2,\n        'Cr3': 2.2,\n")],
r"""
from lulua.carpalx import models
assert models['salvo'].baselineEffort['Cr4'] == models['mod01'].baselineEffort['Cr4'] == 2.0
""", 'the salvo model and one particular key', 'its effort is not the published one')
