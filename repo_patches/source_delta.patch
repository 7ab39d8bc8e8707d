From 3982bef9602ad19e7d17d72497f10194f903690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 01/43] fix: type the longest match even if reads are short,
 skip text with empty layouts

---
 lulua/writer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lulua/writer.py b/lulua/writer.py
index a186315..4cdce16 100644
--- a/lulua/writer.py
+++ b/lulua/writer.py
@@ -188,8 +188,15 @@ class Writer:
 
     def type (self, fd):
         buf = ''
+        eof = False
+        # even a layout without any text needs one character, so it can be skipped
+        bufferLen = max (self.layout.bufferLen, 1)
         while True:
-            buf += fd.read (self.layout.bufferLen-len (buf))
+            # a single read may return less than requested
+            while not eof and len (buf) < bufferLen:
+                data = fd.read (bufferLen-len (buf))
+                eof = not data
+                buf += data
             if not buf:
                 break
 
-- 
2.43.0


From e67324ce461841987176f9588c99c4b804e42f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 02/43] fix: count finger runs for the finger that typed them

---
 lulua/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 9d6c537..aeed7ea 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -90,7 +90,7 @@ class RunlenStats (Stats):
 
             fingerKey = (thisHand, thisFinger)
             if self.lastFinger and fingerKey != self.lastFinger:
-                self.fingerRunlenDist[fingerKey][self.fingerRunlen] += 1
+                self.fingerRunlenDist[self.lastFinger][self.fingerRunlen] += 1
                 self.fingerRunlen = 0
             self.fingerRunlen += 1
             self.lastFinger = fingerKey
-- 
2.43.0


From 23646d2b069f7a43b675ed8e7b6e6224f6d0c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 03/43] fix: merge and compare finger run lengths

---
 lulua/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index aeed7ea..c90da04 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -76,7 +76,8 @@ class RunlenStats (Stats):
     def __eq__ (self, other):
         if not isinstance (other, RunlenStats):
             return NotImplemented
-        return self.perHandRunlenDist == other.perHandRunlenDist
+        return self.perHandRunlenDist == other.perHandRunlenDist and \
+                self.fingerRunlenDist == other.fingerRunlenDist
         
     def process (self, event):
         if isinstance (event, ButtonCombination):
@@ -106,6 +107,7 @@ class RunlenStats (Stats):
 
     def update (self, other):
         updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)
+        updateDictOp (self.fingerRunlenDist, other.fingerRunlenDist, operator.add)
 
 class SimpleStats (Stats):
     __slots__ = ('buttons', 'combinations', 'unknown')
-- 
2.43.0


From e174df33c94bfa8f7f6990221a3932b622c9d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 04/43] fix: (de)serializing a button changes neither the
 button nor the data

---
 lulua/keyboard.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index eed58a7..68844dd 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -50,7 +50,7 @@ class Button:
         self.scancode = scancode
         # special case for windows
         if self.scancode and 'windows' in self.scancode:
-            self.scancode['windows'] = tuple (self.scancode['windows'])
+            self.scancode = dict (self.scancode, windows=tuple (self.scancode['windows']))
 
     def __repr__ (self): # pragma: no cover
         return f'Button({self.name!r}, {self.width}, {self.isMarked})'
@@ -71,11 +71,8 @@ class Button:
     def deserialize (self, data: Dict):
         kindMap = dict (map (lambda x: (x.serializedName, x),
                 (Button, LetterButton, MultiRowButton)))
-        try:
-            kind = data['kind']
-            del data['kind']
-        except KeyError:
-            kind = 'standard'
+        data = dict (data)
+        kind = data.pop ('kind', 'standard')
         return kindMap[kind] (**data)
 
     def serialize (self):
@@ -86,7 +83,7 @@ class Button:
             d['isMarked'] = self.isMarked
         # turn the tuple back into a list
         if d['scancode'] and 'windows' in d['scancode']:
-            d['scancode']['windows'] = list (d['scancode']['windows'])
+            d['scancode'] = dict (d['scancode'], windows=list (d['scancode']['windows']))
         return d
 
 class LetterButton (Button):
-- 
2.43.0


From 0231dd7177a072683e57604493c3245bef95163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 05/43] fix: pickle buttons by name, their ids depend on the
 process

---
 lulua/keyboard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index 68844dd..b6daaf6 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -63,6 +63,10 @@ class Button:
     def __hash__ (self):
         return hash (self.i)
 
+    def __reduce__ (self):
+        # ids are only valid inside this process, thus pickle by name
+        return Button.deserialize, (self.serialize (), )
+
     @property
     def name (self):
         return Button._idToName[self.i]
-- 
2.43.0


From 0a9e65e66a74cea7bf7b0e2f24081e5cedd78dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 06/43] fix: KeyboardLayout.copy() needs a keyboard

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 5e021fe..c4b1202 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -163,7 +163,7 @@ class KeyboardLayout:
 
     def copy (self):
         layers = copy.deepcopy (self.layers)
-        return self.__class__ (self.name[:], layers)
+        return self.__class__ (self.name, layers, self.keyboard)
 
     def getText (self, comb: ButtonCombination) -> Text:
         """ Get input text for combination """
-- 
2.43.0


From cf25a35409c8587b68143d1fb08d3a067c48485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 07/43] fix: report the energy of the layout written, not of
 the last one tried

---
 lulua/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index facba17..fc9bca0 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -342,6 +342,8 @@ def optimize ():
             opt.mutate (withEnergy=False)
     try:
         state, relEnergy = opt.run (steps=args.steps)
+        # not the current, but the best state is written
+        opt.state = state
         energy = opt.energy ()
         optimalButtonMap = state.buttonMap
     except KeyboardInterrupt:
-- 
2.43.0


From f83f935f6243cb13c5b4d923309cd72c08e90e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 08/43] fix: terminate scancode tables of windows driver

---
 lulua/winkbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lulua/winkbd.py b/lulua/winkbd.py
index 0f4dffc..ded23e0 100644
--- a/lulua/winkbd.py
+++ b/lulua/winkbd.py
@@ -450,6 +450,7 @@ def scancodeToVkTables (m):
         f = lambda x: len (x[0]) == 2 and x[0][0] == escape
         for k, v in sorted (filter (f, m.items ()), key=lambda x: x[0]):
             ret.append (f'\t{{ 0x{k[1]:x}, {enumOr (v)} }},')
+        ret.append ('\t{ 0x0, 0x0 },')
         ret.append ('\t};\n')
 
     return '\n'.join (ret)
-- 
2.43.0


From 082da432f233e6bb632e3c8cc4ddebfb129ec7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 09/43] fix: bottom row keys of AnySoftKeyboard layout had no
 attributes

---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index bc09e4c..7a42a44 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -462,7 +462,7 @@ def renderAsk (args):
             # backspace
             {'ask:isFunctional': 'true', 'android:keyWidth': '25%p', 'android:codes': '-5', 'android:keyEdgeFlags': 'right', 'android:isRepeatable': 'true'},
             ]:
-        ET.SubElement (rowelem, 'Key', )
+        ET.SubElement (rowelem, 'Key', attrib)
 
     tree = ET.ElementTree (kbdelem)
     tree.write (args.output, encoding='utf-8', xml_declaration=True)
-- 
2.43.0


From 48e4dc90b4133e82bf191622e2cd832edb50b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 10/43] fix: escape control characters in macOS keylayout

---
 lulua/render.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index 7a42a44..c11584f 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -18,7 +18,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 # THE SOFTWARE.
 
-import argparse, sys, logging, pkg_resources, base64, unicodedata
+import argparse, sys, logging, pkg_resources, base64, unicodedata, re
 from collections import namedtuple, defaultdict
 from itertools import chain
 from operator import attrgetter
@@ -548,12 +548,15 @@ def renderKeylayout (args):
     layouts = ET.SubElement (docroot, 'layouts')
     layout = ET.SubElement (layouts, 'layout', first='0', last='0', modifiers=str (modmapId), mapSet=str (keymapSetId))
 
-    decl = b"""<?xml version="1.0" encoding="utf-8"?>
+    # control characters are only allowed in XML 1.1 and must be escaped
+    decl = b"""<?xml version="1.1" encoding="utf-8"?>
 <!DOCTYPE keyboard PUBLIC "" "file://localhost/System/Library/DTDs/KeyboardLayout.dtd">
 """
     with open (args.output, 'wb') as fd:
         fd.write (decl)
-        fd.write (ET.tostring (docroot, encoding='utf-8'))
+        body = ET.tostring (docroot, encoding='unicode')
+        body = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f]', lambda m: f'&#x{ord (m.group ()):04X};', body)
+        fd.write (body.encode ('utf-8'))
 
 def renderKlavaro (args):
     keyboard = defaultKeyboards[args.keyboard]
-- 
2.43.0


From cd98d6d85d0bea677260fbeaed90abffe60b7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 11/43] fix: xmodmap lost the space bar if only its left half
 has text

---
 lulua/render.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index c11584f..3941c2b 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -331,7 +331,9 @@ def renderXmodmap (args):
             # space button shares the same keycode and must be removed
             for btn in unique (keyboard.keys (), key=xorgGetter):
                 if not layout.isModifier (frozenset ([btn])):
-                    text = l.layout.get (btn)
+                    # … but either one of them may have the text
+                    shared = filter (lambda x: xorgGetter (x) == xorgGetter (btn), keyboard.keys ())
+                    text = next (filter (None, map (l.layout.get, shared)), None)
                     if not text:
                         text = 'NoSymbol'
                     else:
-- 
2.43.0


From 07d95164a44784f44a5361bd7db5cbec59039dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 12/43] fix: render heatmap of empty statistics

---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index 3941c2b..99e0d14 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -265,7 +265,7 @@ def renderSvg (args):
 
     keyHeat = {}
     if args.heatmap:
-        maxHeat = max (args.heatmap['buttons'].values ())
+        maxHeat = max (args.heatmap['buttons'].values (), default=0) or 1
         keyHeat = dict ((k, v/maxHeat) for k, v in args.heatmap['buttons'].items ())
 
     r = Renderer (keyboard, layout=layout, writer=writer, keyHighlight=keyHeat)
-- 
2.43.0


From cc84c3c522d9f2054f56fea25da606e833bb0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 13/43] fix: truncated brotli stream caused an endless loop

---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index ea91139..fc0900d 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -128,7 +128,10 @@ class BrotliFile:
         while not self.decompressor.is_finished ():
             if num is not None and len (self.buf) >= num:
                 break
-            self.buf += self.decompressor.process (self.fd.read (self.readchunk))
+            chunk = self.fd.read (self.readchunk)
+            if not chunk:
+                raise EOFError ('truncated brotli stream')
+            self.buf += self.decompressor.process (chunk)
         if num is not None:
             b = self.buf[0:num]
             self.buf = self.buf[num:]
-- 
2.43.0


From d5b3484dd9be886aa26410447e842daa86505921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 14/43] fix: tar filter returned metadata of long names as
 documents

---
 lulua/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index fc0900d..5a1fda3 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -161,9 +161,11 @@ def filterTar (fd):
         assert header[256:256+8] == b'\0ustar  ', (header[256:256+8])
         size = int (header[124:124+12].rstrip (b'\0'), base=8)
 
-        # read body
+        # read body, ignore everything that is not a regular file (long names, …)
         if size > 0:
-            yield BytesIO (fd.read (size))
+            body = fd.read (size)
+            if header[156:156+1] in (b'0', b'\0'):
+                yield BytesIO (body)
             pos += size
 
         # align to next 512 byte block
-- 
2.43.0


From 422b16e874c7afc693dcc7cbc1d5a6e920a1e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 15/43] fix: HTML selection lost text after nested containers
 and nested tags in styles

---
 lulua/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index 5a1fda3..b902c07 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -61,12 +61,14 @@ class Select (Filter):
             if ttype == 'StartTag':
                 tname = token['name']
                 tdata = token['data']
-                if self.f (token):
+                if self.inside is None and self.f (token):
                     self.inside = 0
-                if tname in {'script', 'style'}:
+                if isScript is None and tname in {'script', 'style'}:
                     isScript = 0
 
             if isScript is not None:
+                if ttype == 'StartTag':
+                    isScript += 1
                 if ttype == 'EndTag':
                     isScript -= 1
                     if isScript <= 0:
-- 
2.43.0


From 15993739d1a9ed017ecb6e1319bd5ae555726bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 16/43] fix: KLC import used wrong or unknown buttons

---
 lulua/layout.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index c4b1202..4d17956 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -245,7 +245,7 @@ class GenericLayout:
             return unicodedata.normalize ('NFD', chr (n))
 
         vkToButton = {
-            'OEM_3': 'Bl2',
+            'OEM_3': 'Bl1',
             '1': 'Bl2',
             '2': 'Bl3',
             '3': 'Bl4',
@@ -271,7 +271,6 @@ class GenericLayout:
             'P': 'Cr3',
             'OEM_4': 'Cr2',
             'OEM_6': 'Cr1',
-            'OEM_5': 'Cr0',
 
             'A': 'Dl1',
             'S': 'Dl2',
@@ -284,7 +283,7 @@ class GenericLayout:
             'L': 'Dr4',
             'OEM_1': 'Dr3',
             'OEM_7': 'Dr2',
-            #Dr1
+            'OEM_5': 'Dr1',
 
             'OEM_102': 'El1',
             'Z': 'El2',
@@ -336,8 +335,8 @@ class GenericLayout:
                 1: [('El_shift', ), ('Er_shift', )],
                 2: [('Fl_ctrl', ), ('Fr_ctrl', )],
                 3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],
-                4: [('Er_altgr', )],
-                5: [('El_shift', 'Er_altgr')],
+                4: [('Fr_altgr', )],
+                5: [('El_shift', 'Fr_altgr')],
                 }
             return layers, layerSwitches
 
-- 
2.43.0


From 2033fe35ae456f0d45a676b2b5a1365f7e45ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 17/43] fix: KLC import mistook letters and digits for code
 points

---
 lulua/layout.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 4d17956..fb8faa6 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -239,10 +239,12 @@ class GenericLayout:
             # two symbols for NULL? Seriously Microsoft?
             if c == '%%':
                 return None
-            n = int (c, 16)
-            if n == -1:
+            if c == '-1':
                 return None
-            return unicodedata.normalize ('NFD', chr (n))
+            # ASCII letters and digits stand for themselves
+            if len (c) > 1:
+                c = chr (int (c, 16))
+            return unicodedata.normalize ('NFD', c)
 
         vkToButton = {
             'OEM_3': 'Bl1',
-- 
2.43.0


From db0593f21e31d6c5681ab92d6898c57c9d22b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 18/43] fix: KLC import failed for comments, unknown keys and
 files without ligatures

---
 lulua/layout.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index fb8faa6..ee91cb7 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -302,20 +302,21 @@ class GenericLayout:
             'SPACE': 'Fl_space',
             }
 
+        # sections following the layout
+        sections = [['LIGATURE'], ['DEADKEY'], ['KEYNAME'], ['KEYNAME_EXT'],
+                ['KEYNAME_DEAD'], ['DESCRIPTIONS'], ['LANGUAGENAMES'], ['ENDKBD']]
+
         with fd:
             mode = None
             layers = [{} for i in range (6)]
             for line in fd:
                 # strip comments
-                try:
-                    line = line[:line.index ('//')]
-                    line = line[:line.index (';')]
-                except ValueError:
-                    pass
+                for marker in ('//', ';'):
+                    line = line.split (marker, 1)[0]
                 line = line.strip ()
                 if line.startswith ('LAYOUT'):
                     mode = 'layout'
-                elif line == 'LIGATURE':
+                elif line.split (None, 1)[:1] in sections:
                     mode = None
                 elif mode == 'layout':
                     try:
@@ -329,8 +330,7 @@ class GenericLayout:
                             if c is not None:
                                 layers[i][button] = c
                     except KeyError:
-                        assert virtKey == 'DECIMAL'
-                        pass
+                        logging.info (f'no button for virtual key {virtKey}')
 
             layerSwitches = {
                 0: [tuple ()],
-- 
2.43.0


From f9b2130bc2bceb35ef9aac10505bc1aeeac2758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 19/43] fix: bokeh renamed plot_width/plot_height

---
 lulua/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 9fb5cf1..1382559 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -95,8 +95,8 @@ def letterfreq (args):
 
     source = ColumnDataSource(data=dict(x=xdata, letters=xlabel, rel=ydata, abs=ydataAbs, cum=ydataCumAbs, cumRel=ydataCumRel))
     p = figure(
-            plot_width=1000,
-            plot_height=500,
+            width=1000,
+            height=500,
             x_range=xlabel,
             y_range=(0, 1),
             sizing_mode='scale_both',
@@ -234,8 +234,8 @@ def triadEffortPlot (args):
     from bokeh.layouts import column
 
     p = figure(
-            plot_width=1000,
-            plot_height=500,
+            width=1000,
+            height=500,
             sizing_mode='scale_both',
             x_range=(0, 1),
             y_range=(0, 1),
-- 
2.43.0


From a1129382a1b7c0501c5dd62f3f72aa573eadd498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 20/43] fix: plots without letters or with less than three
 layouts failed

---
 lulua/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 1382559..8dee0b6 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -104,7 +104,7 @@ def letterfreq (args):
             )
     p.line ('letters', 'cumRel', source=source, line_width=2)
 
-    p.extra_y_ranges = {"single": Range1d (0, max (ydata))}
+    p.extra_y_ranges = {"single": Range1d (0, max (ydata, default=1))}
     p.vbar(x='letters', width=0.5, top='rel', color="#dc322f", source=source, y_range_name='single')
     p.add_layout(LinearAxis(y_range_name="single"), 'right')
 
@@ -242,7 +242,8 @@ def triadEffortPlot (args):
             output_backend="webgl",
             )
     data = list (unpickleAll (sys.stdin.buffer))
-    colors = Set3[len(data)]
+    # smallest palette has three colors
+    colors = Set3[max (len(data), 3)]
     lines = dict ()
     for o, color in zip (data, colors):
         name = o['layout'].name
-- 
2.43.0


From 92b6c1dee84c5afd6343bf0e154fb69aab98f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 21/43] fix: layout statistics of a corpus without alef failed

---
 lulua/stats.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index c90da04..4fca082 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -337,7 +337,9 @@ def layoutstats (args):
         hands[hand] += count
         fingers[(hand, finger)] += count
 
-    asymmetry = hands[LEFT]/buttonPresses - hands[RIGHT]/buttonPresses
+    # there may be no presses (or alefs) at all
+    share = lambda a, b: a/b if b else 0
+    asymmetry = share (hands[LEFT], buttonPresses) - share (hands[RIGHT], buttonPresses)
 
     # Impact of hamza
     yah = '\u064a'
@@ -356,9 +358,9 @@ def layoutstats (args):
             continue
         combPerGroup[letter] += sum (map (lambda x: combStats[x], combinations))
     combinations = sum (stats['simple'].combinations.values ())
-    hamzaImpact = sum (map (lambda x: combPerGroup[x], letterWithHamza))/combinations
+    hamzaImpact = share (sum (map (lambda x: combPerGroup[x], letterWithHamza)), combinations)
     x = combPerGroup[alef+hamzaAbove] + combPerGroup[alef+hamzaBelow]
-    hamzaOnAlef = x/(x+combPerGroup[alef])
+    hamzaOnAlef = share (x, x+combPerGroup[alef])
 
     pickle.dump (dict (
             layout=args.layout,
-- 
2.43.0


From 1ac28432e2bc0faca72554a17e1c87fd10488b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 22/43] fix: layouts were not found if there is a directory of
 the same name

---
 lulua/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/util.py b/lulua/util.py
index 0245275..f1a48d6 100644
--- a/lulua/util.py
+++ b/lulua/util.py
@@ -58,7 +58,7 @@ class YamlLoader:
             try:
                 with f (k) as fd:
                     return self.deserialize (yaml.safe_load (fd))
-            except FileNotFoundError:
+            except (FileNotFoundError, IsADirectoryError):
                 pass
             except yaml.reader.ReaderError:
                 pass
-- 
2.43.0


From e9406a29805b35647a44d3ac9321b3533fbb19ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:36 +0000
Subject: [PATCH 23/43] fix: different buttons shared the same key code

---
 lulua/data/keyboards/ibmpc105.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index 0938262..b2453ed 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -372,7 +372,7 @@ rows:
 - - - name: El_shift
       scancode:
         keyman: SHIFT
-        macos: 57
+        macos: 56
         windows:
         - 42
         xorg: 50
@@ -536,11 +536,11 @@ rows:
     - name: Fr_win
       scancode:
         keyman: K_?5C
-        macos: 55
+        macos: 54
         windows:
         - 224
         - 92
-        xorg: 105
+        xorg: 134
       width: 1.25
     - name: Fr_menu
       scancode:
-- 
2.43.0


From 3e378050f2304178b6a067ff7f23d38fac070763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:36 +0000
Subject: [PATCH 24/43] fix: macOS key codes for buttons next to return and
 left shift

---
 lulua/data/keyboards/ibmpc105.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index b2453ed..d82d989 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -365,6 +365,7 @@ rows:
       name: Dr1
       scancode:
         keyman: K_SLASH
+        macos: 42
         windows:
         - 43
         xorg: 51
@@ -381,6 +382,7 @@ rows:
       name: El1
       scancode:
         keyman: K_oE2
+        macos: 10
         windows:
         - 86
         xorg: 94
-- 
2.43.0


From 76d0a1d4255b0b28b3104ba0caf25f341845a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:36 +0000
Subject: [PATCH 25/43] fix: lulua-write blocked forever if its workers failed

---
 lulua/text.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index b902c07..5d3ed2a 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -382,6 +382,9 @@ def writeWorker (layout, funcs, inq, outq, statusq, benchmark):
     except Exception as e:
         # async exceptions
         outq.put (e)
+        # the remaining items are still sent to us, do not block the sender
+        while inq.get () is not None:
+            pass
 
 def statusWorker (statusq):
     with tqdm (unit='item', smoothing=0) as bar:
@@ -451,12 +454,13 @@ def write ():
 
     # exit workers
     # every one of them will consume exactly one item and write one in return
+    error = None
     for w in workers:
         inq.put (None)
         item = outq.get ()
         if isinstance (item, Exception):
-            raise item
-        if item is not None:
+            error = error or item
+        elif item is not None and error is None:
             pickle.dump (item, sys.stdout.buffer, pickle.HIGHEST_PROTOCOL)
     assert outq.empty ()
 
@@ -467,6 +471,9 @@ def write ():
     for w in workers:
         w.join ()
 
+    if error is not None:
+        raise error
+
     return 0
 
 import bz2, sys, json, subprocess
-- 
2.43.0


From 344642fa366e31930dfc174ef18eb1626aea012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:36 +0000
Subject: [PATCH 26/43] fix: lulua-write blocked forever after an interrupt
 from the terminal

---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 5d3ed2a..0063ab3 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -22,7 +22,7 @@
 Text/corpus handling tools
 """
 
-import sys, argparse, pickle, json, logging, xml.dom.minidom, queue
+import sys, argparse, pickle, json, logging, xml.dom.minidom, queue, signal
 from io import StringIO, BytesIO
 from functools import partial
 from itertools import chain
@@ -427,6 +427,8 @@ def write ():
     statusq = Queue (args.jobs+1)
 
     logging.info (f'using {args.jobs} workers')
+    # only this process reacts to interrupts, it tells all others when to exit
+    sigint = signal.signal (signal.SIGINT, signal.SIG_IGN)
     workers = []
     for i in range (args.jobs):
         p = Process(target=writeWorker,
@@ -441,6 +443,7 @@ def write ():
             daemon=True,
             name=f'status')
     statusp.start()
+    signal.signal (signal.SIGINT, sigint)
 
     try:
         for l in sys.stdin:
-- 
2.43.0


From 06ec54d411ac7cc736f4eeb2995512bb41890cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:23 +0000
Subject: [PATCH 27/43] fix: BrotliFile as context manager suppressed all
 exceptions

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 0063ab3..149c16f 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -124,7 +124,7 @@ class BrotliFile:
         return self
 
     def __exit__ (self, exc_type, exc_val, exc_tb):
-        return True
+        return False
 
     def read (self, num=None):
         while not self.decompressor.is_finished ():
-- 
2.43.0


From 5a668c3a703f0b5a9ba036bf35d7b50f1b4ef1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:50 +0000
Subject: [PATCH 28/43] fix: tar archives containing a link with a long target
 were rejected

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 149c16f..458fe74 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -160,7 +160,7 @@ def filterTar (fd):
         pos += blocksize
         if header == b'' or header == emptyblock:
             break
-        assert header[256:256+8] == b'\0ustar  ', (header[256:256+8])
+        assert header[257:257+8] == b'ustar  \0', (header[257:257+8])
         size = int (header[124:124+12].rstrip (b'\0'), base=8)
 
         # read body, ignore everything that is not a regular file (long names, …)
-- 
2.43.0


From b3c07d0165a0121323c8d2a2c0c8d173ae370dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:27 +0000
Subject: [PATCH 29/43] fix: XML readers dropped text in CDATA sections

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 458fe74..f11e125 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -229,7 +229,7 @@ def getText (nodelist):
     """ Helper to retrieve text from an XML node list """
     rc = []
     for node in nodelist:
-        if node.nodeType == node.TEXT_NODE:
+        if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE):
             rc.append(node.data)
     return ''.join(rc)
 
-- 
2.43.0


From abee169d51209153ddc9245784826d1e20def436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:12 +0000
Subject: [PATCH 30/43] fix: report names below a plain file as unknown in
 YamlLoader

Looking up 'ar-lulua.yaml/x' failed with NotADirectoryError instead of
KeyError.
---
 lulua/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/util.py b/lulua/util.py
index f1a48d6..d6d9bc3 100644
--- a/lulua/util.py
+++ b/lulua/util.py
@@ -58,7 +58,7 @@ class YamlLoader:
             try:
                 with f (k) as fd:
                     return self.deserialize (yaml.safe_load (fd))
-            except (FileNotFoundError, IsADirectoryError):
+            except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
                 pass
             except yaml.reader.ReaderError:
                 pass
-- 
2.43.0


From f82de096ce77b3ca00fa5ed56443264b949bc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 31/43] fix: escape line separators in macOS keyboard layouts

XML 1.1 parsers normalise U+2028 to a line feed, thus a key typing it would
type a space.
---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index 99e0d14..19d9706 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -557,7 +557,7 @@ def renderKeylayout (args):
     with open (args.output, 'wb') as fd:
         fd.write (decl)
         body = ET.tostring (docroot, encoding='unicode')
-        body = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f]', lambda m: f'&#x{ord (m.group ()):04X};', body)
+        body = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f\u2028]', lambda m: f'&#x{ord (m.group ()):04X};', body)
         fd.write (body.encode ('utf-8'))
 
 def renderKlavaro (args):
-- 
2.43.0


From c9fa389c4134103b2ac23b12fe908c44cda3b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:55 +0000
Subject: [PATCH 32/43] fix: refuse characters outside the BMP in Windows
 drivers

They do not fit a wchar_t and were silently truncated to another character.
---
 lulua/winkbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/winkbd.py b/lulua/winkbd.py
index ded23e0..afeace5 100644
--- a/lulua/winkbd.py
+++ b/lulua/winkbd.py
@@ -620,7 +620,7 @@ def vkToWchar (m):
             def toRepr (s):
                 if s is None:
                     return WChar.NONE.cdefName
-                elif len (s) != 1:
+                elif len (s) != 1 or ord (s) > 0xffff:
                     # everything else belongs to ligature tables, which we
                     # don’t support.
                     raise Exception (f'only single-character strings are supported ({s!r})')
-- 
2.43.0


From e4a796578cb85aab63d61c08804a76c2ce6462f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:51 +0000
Subject: [PATCH 33/43] fix: triad effort plot used a callback bokeh no longer
 has

---
 lulua/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 8dee0b6..ec25dfe 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -274,7 +274,7 @@ def triadEffortPlot (args):
             }
     presets = RadioButtonGroup (labels=LABELS, active=0)
     # Set visibility and x/yranges on click. Not sure if there’s a more pythonic way.
-    presets.js_on_click(CustomJS(
+    presets.js_on_change('active', CustomJS(
             args=dict(lines=lines, plot=p, visible=visible, ranges=ranges),
             code="""
             for (const [k, line] of Object.entries (lines)) {
-- 
2.43.0


From 4c261eee642deea6562a5dc3d3ec826679df2119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:59 +0000
Subject: [PATCH 34/43] fix: report failed for layouts which leave a finger
 unused

---
 lulua/data/report/index.html | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lulua/data/report/index.html b/lulua/data/report/index.html
index e2108cd..78a2b98 100644
--- a/lulua/data/report/index.html
+++ b/lulua/data/report/index.html
@@ -406,14 +406,15 @@
 {% set fingers = stats.fingers %}
 <div class="fingerhandstats" dir="ltr" lang="en">
 {% for hand in Direction %}
-	{% set handpct = hands[hand]/stats.buttonPresses*100 %}
+	{# hands and fingers which are not used at all have no value #}
+	{% set handpct = hands.get (hand, 0)/(stats.buttonPresses or 1)*100 %}
 	<div class="{{ hand.name.lower() }}" style="width: {{ '%.3f'|format(handpct) }}%;">
 	<div class="hand">{{ '%.2f'|format(handpct) }}%</div>
 	<div class="fingers">
 	{% for finger in fingerOrder[hand] %}
-		{% set fingerpct = fingers[(hand, finger)]/stats.buttonPresses*100 %}
+		{% set fingerpct = fingers.get ((hand, finger), 0)/(stats.buttonPresses or 1)*100 %}
 		{# finger width is relative to parent (i.e. hand) #}
-		{% set fingerwidth = fingers[(hand, finger)]/hands[hand]*100 %}
+		{% set fingerwidth = fingers.get ((hand, finger), 0)/(hands.get (hand) or 1)*100 %}
 		<div class="{{ finger.name.lower() }}" style="width: {{ '%.3f'|format(fingerwidth) }}%;">{{ '%.2f'|format(fingerpct) }}</div>
 	{% endfor %}
 	</div>
-- 
2.43.0


From 6ed4894199ae9e1392a148af4082af99eec28163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:31 +0000
Subject: [PATCH 35/43] fix: Keyman key names denote positions of a US keyboard

The exported keyboards are positional (mnemoniclayout is 0), but the names
were those of a German keyboard, so that ten keys typed the text of another
one.
---
 lulua/data/keyboards/ibmpc105.yaml | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index d82d989..89a0ea6 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -4,7 +4,7 @@ rows:
 - - - kind: letter
       name: Bl1
       scancode:
-        keyman: K_BKSLASH
+        keyman: K_BKQUOTE
         macos: 50
         windows:
         - 41
@@ -103,7 +103,7 @@ rows:
     - kind: letter
       name: Br2
       scancode:
-        keyman: K_LBRKT
+        keyman: K_HYPHEN
         macos: 27
         windows:
         - 12
@@ -112,7 +112,7 @@ rows:
     - kind: letter
       name: Br1
       scancode:
-        keyman: K_RBRKT
+        keyman: K_EQUAL
         macos: 24
         windows:
         - 13
@@ -182,7 +182,7 @@ rows:
   - - kind: letter
       name: Cr7
       scancode:
-        keyman: K_Z
+        keyman: K_Y
         macos: 16
         windows:
         - 21
@@ -227,7 +227,7 @@ rows:
     - kind: letter
       name: Cr2
       scancode:
-        keyman: K_COLON
+        keyman: K_LBRKT
         macos: 33
         windows:
         - 26
@@ -236,7 +236,7 @@ rows:
     - kind: letter
       name: Cr1
       scancode:
-        keyman: K_EQUAL
+        keyman: K_RBRKT
         macos: 30
         windows:
         - 27
@@ -346,7 +346,7 @@ rows:
     - kind: letter
       name: Dr3
       scancode:
-        keyman: K_BKQUOTE
+        keyman: K_COLON
         macos: 41
         windows:
         - 39
@@ -364,7 +364,7 @@ rows:
     - kind: letter
       name: Dr1
       scancode:
-        keyman: K_SLASH
+        keyman: K_BKSLASH
         macos: 42
         windows:
         - 43
@@ -390,7 +390,7 @@ rows:
     - kind: letter
       name: El2
       scancode:
-        keyman: K_Y
+        keyman: K_Z
         macos: 6
         windows:
         - 44
@@ -471,7 +471,7 @@ rows:
     - kind: letter
       name: Er1
       scancode:
-        keyman: K_HYPHEN
+        keyman: K_SLASH
         macos: 44
         windows:
         - 53
-- 
2.43.0


From 1d7a6b276dfddb17440d48898d5dcaec248f0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:11 +0000
Subject: [PATCH 36/43] fix: iterating packaged resources does not load
 X.yaml.yaml in place of X.yaml

---
 lulua/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/util.py b/lulua/util.py
index d6d9bc3..0c30458 100644
--- a/lulua/util.py
+++ b/lulua/util.py
@@ -69,7 +69,7 @@ class YamlLoader:
         for res in pkg_resources.resource_listdir (__package__, self.defaultDir):
             # ignore dotfiles, only include yaml
             if not res.startswith ('.') and res.endswith ('.yaml'):
-                yield self.__getitem__ (res, onlyRes=True)
+                yield self.__getitem__ (res[:-len ('.yaml')], onlyRes=True)
 
 def displayText (text):
     """ Convert text into a string that is always renderable without combining,
-- 
2.43.0


From ffb06e0880050504b2fd4dcce226b8019fc02e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:59 +0000
Subject: [PATCH 37/43] fix: report errors of workers which cannot be pickled
 instead of hanging

---
 lulua/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index f11e125..b1d5d45 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -380,7 +380,11 @@ def writeWorker (layout, funcs, inq, outq, statusq, benchmark):
         else:
             outq.put (None)
     except Exception as e:
-        # async exceptions
+        # async exceptions, some (lxml’s, for example) cannot be sent as-is
+        try:
+            pickle.loads (pickle.dumps (e))
+        except Exception:
+            e = RuntimeError (f'{type (e).__name__}: {e}')
         outq.put (e)
         # the remaining items are still sent to us, do not block the sender
         while inq.get () is not None:
-- 
2.43.0


From 83c3421a0f7ac9cedb1bdf31e019142153a2a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:59 +0000
Subject: [PATCH 38/43] fix: invalid input does not keep the import command
 from returning

---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index b1d5d45..99ebee0 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -449,6 +449,7 @@ def write ():
     statusp.start()
     signal.signal (signal.SIGINT, sigint)
 
+    error = None
     try:
         for l in sys.stdin:
             inq.put (l)
@@ -458,10 +459,12 @@ def write ():
                 break
     except KeyboardInterrupt:
         pass
+    except Exception as e:
+        # input is not valid, workers still have to be told to exit
+        error = e
 
     # exit workers
     # every one of them will consume exactly one item and write one in return
-    error = None
     for w in workers:
         inq.put (None)
         item = outq.get ()
-- 
2.43.0


From 3e08fc3d4bf87f86993f75503023dfe3b0db43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:17 +0000
Subject: [PATCH 39/43] fix: truncated tar archives are rejected instead of
 delivering incomplete files

---
 lulua/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/text.py b/lulua/text.py
index 99ebee0..9c96393 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -166,6 +166,8 @@ def filterTar (fd):
         # read body, ignore everything that is not a regular file (long names, …)
         if size > 0:
             body = fd.read (size)
+            if len (body) != size:
+                raise EOFError ('truncated tar archive')
             if header[156:156+1] in (b'0', b'\0'):
                 yield BytesIO (body)
             pos += size
-- 
2.43.0


From 0c914e5559f00a6edf8a0bde8e097707129aad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:29 +0000
Subject: [PATCH 40/43] fix: KLC import respects the shift states of a file's
 columns

---
 lulua/layout.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index ee91cb7..99d1d6b 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -309,6 +309,9 @@ class GenericLayout:
         with fd:
             mode = None
             layers = [{} for i in range (6)]
+            # columns, shift state (1: shift, 2: control, 4: alt) → layer
+            states = []
+            stateToLayer = {0: 0, 1: 1, 2: 2, 3: 3, 6: 4, 7: 5}
             for line in fd:
                 # strip comments
                 for marker in ('//', ';'):
@@ -318,6 +321,10 @@ class GenericLayout:
                     mode = 'layout'
                 elif line.split (None, 1)[:1] in sections:
                     mode = None
+                elif line == 'SHIFTSTATE':
+                    mode = 'shiftstate'
+                elif mode == 'shiftstate' and line.isdigit ():
+                    states.append (int (line))
                 elif mode == 'layout':
                     try:
                         scancode, virtKey, cap, *code = re.split (r'\s+', line)
@@ -326,9 +333,9 @@ class GenericLayout:
                     code = list (map (codeToText, code))
                     try:
                         button = vkToButton[virtKey]
-                        for i, c in enumerate (code):
-                            if c is not None:
-                                layers[i][button] = c
+                        for s, c in zip (states or stateToLayer, code):
+                            if c is not None and s in stateToLayer:
+                                layers[stateToLayer[s]][button] = c
                     except KeyError:
                         logging.info (f'no button for virtual key {virtKey}')
 
-- 
2.43.0


From ac4c6977183a69af473d0eb5905f1d67ac7bcffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:20 +0000
Subject: [PATCH 41/43] fix: plot triad effort of more than twelve layouts

The largest palette has twelve colors, thus triadeffortplot failed with a
KeyError. Reuse colors instead.
---
 lulua/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index ec25dfe..7836ad9 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -20,6 +20,7 @@
 
 import sys, argparse, json, unicodedata, pickle, logging, math
 from operator import itemgetter
+from itertools import cycle
 
 from .layout import *
 from .keyboard import defaultKeyboards
@@ -242,8 +243,8 @@ def triadEffortPlot (args):
             output_backend="webgl",
             )
     data = list (unpickleAll (sys.stdin.buffer))
-    # smallest palette has three colors
-    colors = Set3[max (len(data), 3)]
+    # smallest palette has three colors, the largest one twelve
+    colors = cycle (Set3[min (max (len(data), 3), 12)])
     lines = dict ()
     for o, color in zip (data, colors):
         name = o['layout'].name
-- 
2.43.0


From 07a838b05213e424703c63da621d50a305dd5d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:20 +0000
Subject: [PATCH 42/43] fix: layoutstats supports layouts without alef, waw or
 yah

---
 lulua/stats.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 4fca082..a6993e9 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -352,7 +352,11 @@ def layoutstats (args):
     combStats = stats['simple'].combinations
     letterWithHamza = [alef+hamzaAbove, alef+hamzaBelow, yah+hamzaAbove, waw+hamzaAbove]
     for letter in [alef] + letterWithHamza:
-        match, combinations = layout (letter)
+        try:
+            match, combinations = layout (letter)
+        except KeyError:
+            # cannot be typed at all
+            continue
         if match != letter:
             # not a single key or single combination
             continue
-- 
2.43.0


From b546c52ba80d5515e37ec37be8d9953f138b6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:40 +0000
Subject: [PATCH 43/43] fix: plot commands respect the selected keyboard

letterfreq, triadfreq and triadeffortdata ignored --keyboard and failed for
layouts which use buttons ibmpc105 does not have.
---
 lulua/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 7836ad9..a8eb64d 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -59,7 +59,7 @@ def letterfreq (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
 
 
@@ -135,7 +135,7 @@ def triadfreq (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
     writer = Writer (layout)
 
@@ -184,7 +184,7 @@ def triadEffortData (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
     writer = Writer (layout)
 
-- 
2.43.0

