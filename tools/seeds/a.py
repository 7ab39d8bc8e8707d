Seed ('c01-refill', 'C01', [('lulua/writer.py', "                buf = buf[1:]\n                continue", "                # nothing known starts here, drop what we looked at\n                buf = buf[1:].lstrip (buf[0])\n                continue")],
r'''
# a text with repeated unknown characters must produce one skip event each
from io import StringIO
from lulua.layout import GenericLayout
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer, SkipEvent
k = defaultKeyboards['ibmpc105']
l = GenericLayout.deserialize ({'name': 't', 'layout': [{'modifier': [[]], 'layer': {'Dl1': 'a', 'Dl2': 'abc'}}]}).specialize (k)
out = ''.join (m if m else e.char for m, e in Writer (l).type (StringIO ('axxxa')))
assert out == 'axxxa', out
''', 'a layout with multi-character strings and a run of the same untypable character inside the look-ahead buffer', 'repeated skipped characters are swallowed, the text is not reproduced')

Seed ('c01-prefix', 'C01', [('lulua/layout.py', "                    self.bufferLen = max (len (v), self.bufferLen)", "                    if unicodedata.category (v[0]) != 'Mn':\n                        # look-ahead is only required for base letters\n                        self.bufferLen = max (len (v), self.bufferLen)")],
r'''
from io import StringIO
from lulua.layout import GenericLayout
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer, SkipEvent
k = defaultKeyboards['ibmpc105']
l = GenericLayout.deserialize ({'name': 't', 'layout': [{'modifier': [[]], 'layer': {'Dl1': '\u0651', 'Dl2': '\u064e', 'Dl3': '\u0651\u064e', 'Dl4': 'x'}}]}).specialize (k)
out = [m for m, e in Writer (l).type (StringIO ('x\u0651\u064e'))]
assert out == ['x', '\u0651\u064e'], out
''', 'a layout whose longest string starts with a combining mark', 'the longest match is not taken, because the look-ahead is too short')

Seed ('c02-skiphist', 'C02', [('lulua/writer.py', "                yield None, SkipEvent (buf[0])\n", "                self.lastCombination = None\n                yield None, SkipEvent (buf[0])\n")],
r'''
from io import StringIO
from lulua.layout import GenericLayout
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
k = defaultKeyboards['ibmpc105']
l = GenericLayout.deserialize ({'name': 't', 'layout': [{'modifier': [[]], 'layer': {'Dl1': 'l', 'Dr1': 'r', 'Fl_space': ' ', 'Fr_space': ' '}}]}).specialize (k)
def last (t):
    return [list (e.buttons)[0].name for m, e in Writer (l).type (StringIO (t)) if m][-1]
assert last ('l ') == 'Fr_space', last ('l ')
assert last ('l? ') == 'Fr_space', last ('l? ')
''', 'a skipped character between a left-hand button and a string with alternatives', 'skipped characters influence the choice of combinations')

Seed ('c02-modprev', 'C02', [('lulua/writer.py', "                for b in chain (prev.modifier or prev.buttons, comb.buttons):", "                for b in chain (prev.modifier or prev.buttons, comb):")],
r'''
from lulua.layout import GenericLayout, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
k = defaultKeyboards['ibmpc105']
l = GenericLayout.deserialize ({'name': 't', 'layout': [{'modifier': [[]], 'layer': {'Dl1': 'l'}}]}).specialize (k)
f = lambda m, b: C (frozenset (k[x] for x in m), frozenset ([k[b]]))
w = Writer (l)
w.press (f ([], 'Dr3'))
a, b = f (['El_shift'], 'Dr3'), f (['Er_shift'], 'Dl1')
# both are balanced, the one with the left main button alternates with Dr3
assert w.chooseCombination ([a, b]) == b
''', 'two alternatives with modifiers, balanced over both hands, after a previous combination', 'alternation with the previous hand is computed including the modifiers')

Seed ('c03-window', 'C03', [('lulua/stats.py', "            if btn not in self._ignored:\n                self._triad.append (event)", "            if btn in self._ignored:\n                if len (self._triad) < 3:\n                    # words of one or two letters are not interesting\n                    self._triad = []\n            else:\n                self._triad.append (event)")],
r'''
from lulua.layout import defaultLayouts, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
from lulua.stats import TriadStats
k = defaultKeyboards['ibmpc105']
w = Writer (defaultLayouts['ar-lulua'].specialize (k))
s = TriadStats (w)
f = lambda b: C (frozenset (), frozenset ([k[b]]))
for b in ('Dl1', 'Dl2', 'Fl_space', 'Dl3', 'Dl4'):
    s.process (f (b))
assert len (s.triads) == 2, s.triads
''', 'a white space button within the first two combinations of a stretch', 'triads across white space are lost at the beginning of a stretch')

Seed ('c03-mods', 'C03', [('lulua/stats.py', "            for b in event:\n                self.buttons[b] += 1", "            for b in event.buttons:\n                self.buttons[b] += 1\n            if event.modifier:\n                self.buttons[first (event.modifier)] += 1")],
r'''
from lulua.layout import defaultLayouts, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
from lulua.stats import SimpleStats
k = defaultKeyboards['ibmpc105']
w = Writer (defaultLayouts['ar-ergoarabic'].specialize (k))
s = SimpleStats (w)
s.process (C (frozenset ([k['El_shift'], k['Fr_altgr']]), frozenset ([k['Dl1']])))
assert sum (s.buttons.values ()) == 3, s.buttons
''', 'a layer selected by two simultaneous modifiers', 'only one of several modifiers is counted')

Seed ('c04-word', 'C04', [('lulua/stats.py', "                elif self._currentWord:\n                    self.words[''.join (self._currentWord)] += 1\n                    self._currentWord = []", "                elif self._currentWord:\n                    self.words[''.join (self._currentWord)] += 1\n                    self._currentWord = []\n                    break")],
r'''
from lulua.layout import GenericLayout, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
from lulua.stats import WordStats
from io import StringIO
k = defaultKeyboards['ibmpc105']
l = GenericLayout.deserialize ({'name': 't', 'layout': [{'modifier': [[]], 'layer': {'Dl1': '\u0628', 'Dl2': ' \u0648', 'Dl3': '.'}}]}).specialize (k)
w = Writer (l)
s = WordStats (w)
for m, e in w.type (StringIO ('\u0628 \u0648\u0628.')):
    s.process (e)
assert dict (s.words) == {'\u0628': 1, '\u0648\u0628': 1}, s.words
''', 'a button typing a delimiter followed by a letter', 'letters after a delimiter within the same string are dropped')

Seed ('c04-runreset', 'C04', [('lulua/stats.py', "            # reset state, we don’t know which button to press\n            self.lastHand = None\n            self.curPerHandRunlen = 0\n", "            # reset state, we don’t know which button to press\n            self.lastHand = None\n")],
r'''
from lulua.layout import defaultLayouts, LEFT, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer, SkipEvent
from lulua.stats import RunlenStats
k = defaultKeyboards['ibmpc105']
w = Writer (defaultLayouts['ar-lulua'].specialize (k))
s = RunlenStats (w)
f = lambda b: C (frozenset (), frozenset ([k[b]]))
for e in (f ('Dl1'), f ('Dl1'), SkipEvent ('x'), f ('Dl1'), f ('Dr2')):
    s.process (e)
assert dict (s.perHandRunlenDist[LEFT]) == {1: 1}, s.perHandRunlenDist
''', 'a skipped character inside a run of one hand, followed by a run that ends', 'run length before the skip is added to the run after it')

Seed ('c05-alias', 'C05', [('lulua/stats.py', "        # single buttons\n        self.buttons = defaultdict (int)", "        # single buttons\n        self.buttons = {}"),
    ('lulua/stats.py', "                self.buttons[b] += 1", "                self.buttons[b] = self.buttons.get (b, 0) + 1"),
    ('lulua/stats.py', "        updateDictOp (self.buttons, other.buttons, operator.add)", "        if self.buttons:\n            updateDictOp (self.buttons, other.buttons, operator.add)\n        else:\n            self.buttons = other.buttons")],
r'''
from lulua.layout import defaultLayouts, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
from lulua.stats import SimpleStats
k = defaultKeyboards['ibmpc105']
w = Writer (defaultLayouts['ar-lulua'].specialize (k))
a, b, c = SimpleStats (w), SimpleStats (w), SimpleStats (w)
f = lambda b: C (frozenset (), frozenset ([k[b]]))
b.process (f ('Dl1'))
c.process (f ('Dl1'))
a.update (b)
a.update (c)
assert sum (b.buttons.values ()) == 1, b.buttons
''', 'two merges into empty statistics, then looking at the first source', 'the merge source shares its counters with the target')

Seed ('c05-eq', 'C05', [('lulua/stats.py', "        return self.triads == other.triads\n", "        return self.triads.keys () == other.triads.keys () and \\\n                sum (self.triads.values ()) == sum (other.triads.values ())\n")],
r'''
from lulua.layout import defaultLayouts, ButtonCombination as C
from lulua.keyboard import defaultKeyboards
from lulua.writer import Writer
from lulua.stats import TriadStats
k = defaultKeyboards['ibmpc105']
w = Writer (defaultLayouts['ar-lulua'].specialize (k))
f = lambda b: C (frozenset (), frozenset ([k[b]]))
a, b = TriadStats (w), TriadStats (w)
x, y = (f ('Dl1'), )*3, (f ('Dl2'), )*3
a.triads[x], a.triads[y] = 1, 2
b.triads[x], b.triads[y] = 2, 1
assert a != b
''', 'statistics with the same triads, equal totals and different counts', 'different statistics compare equal')

Seed ('c06-hash', 'C06', [('lulua/layout.py', "        return (self.modifier, self.buttons)\n", "        return (self.modifier, self.buttons, self._hash)\n"),
    ('lulua/layout.py', "        self.__init__ (modifier=state[0], buttons=state[1])", "        self.modifier, self.buttons, self._hash = state")],
r'''
# write in one process, read in another which loaded buttons in another order
import os, pickle, subprocess, sys, tempfile
code = r"""
import sys, pickle
from lulua.keyboard import defaultKeyboards, Button
from lulua.layout import ButtonCombination as C
if sys.argv[1] == 'read':
    Button ('zzz')
k = defaultKeyboards['ibmpc105']
c = C (frozenset ([k['El_shift']]), frozenset ([k['Dl1']]))
if sys.argv[1] == 'write':
    sys.stdout.buffer.write (pickle.dumps ({c: 1}))
else:
    d = pickle.loads (sys.stdin.buffer.read ())
    assert d.get (c) == 1, d
"""
env = dict (os.environ, PYTHONHASHSEED='0')
data = subprocess.run ([sys.executable, '-W', 'ignore', '-c', code, 'write'], stdout=subprocess.PIPE, check=True, env=env).stdout
subprocess.run ([sys.executable, '-W', 'ignore', '-c', code, 'read'], input=data, check=True, env=env)
''', 'the reading process numbered its buttons differently from the writing one', 'stored combinations carry the hash of the writing process and are not found')

Seed ('c06-frozen', 'C06', [('lulua/keyboard.py', "            i = Button._nextNameId\n            Button._nextNameId += 1\n            Button._idToName[i] = name", "            i = len (name) << 16 | Button._nextNameId\n            Button._nextNameId += 1\n            Button._idToName[i] = name"),
   ('lulua/keyboard.py', "        return self.i == other.i\n", "        return self.i == other.i and self.width == other.width\n")],
r'''
from lulua.keyboard import Button
assert Button ('a', width=1) == Button ('a', width=2)
assert Button ('a') != Button ('b')
''', 'two keyboards which have the same button in different sizes', 'a button is not identified by its name alone')
