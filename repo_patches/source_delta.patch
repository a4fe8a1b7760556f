From 26614284d257d2b757710f7d381376d39150bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 01/17] fix: attribute a finished finger run to the finger that
 typed it

---
 lulua/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 9d6c537..aeed7ea 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -90,7 +90,7 @@ class RunlenStats (Stats):
 
             fingerKey = (thisHand, thisFinger)
             if self.lastFinger and fingerKey != self.lastFinger:
-                self.fingerRunlenDist[fingerKey][self.fingerRunlen] += 1
+                self.fingerRunlenDist[self.lastFinger][self.fingerRunlen] += 1
                 self.fingerRunlen = 0
             self.fingerRunlen += 1
             self.lastFinger = fingerKey
-- 
2.43.0


From e9e03d36b56a2c3acfc4b6c88ce26c79555b8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 02/17] fix: merge finger run lengths when combining statistics

---
 lulua/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lulua/stats.py b/lulua/stats.py
index aeed7ea..cca1b45 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -106,6 +106,7 @@ class RunlenStats (Stats):
 
     def update (self, other):
         updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)
+        updateDictOp (self.fingerRunlenDist, other.fingerRunlenDist, operator.add)
 
 class SimpleStats (Stats):
     __slots__ = ('buttons', 'combinations', 'unknown')
-- 
2.43.0


From dd6b5ee659076eca51fbcb7d7386f5c3f833481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 03/17] fix: do not modify the button or its input data when
 (de)serializing

---
 lulua/keyboard.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index eed58a7..68844dd 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -50,7 +50,7 @@ class Button:
         self.scancode = scancode
         # special case for windows
         if self.scancode and 'windows' in self.scancode:
-            self.scancode['windows'] = tuple (self.scancode['windows'])
+            self.scancode = dict (self.scancode, windows=tuple (self.scancode['windows']))
 
     def __repr__ (self): # pragma: no cover
         return f'Button({self.name!r}, {self.width}, {self.isMarked})'
@@ -71,11 +71,8 @@ class Button:
     def deserialize (self, data: Dict):
         kindMap = dict (map (lambda x: (x.serializedName, x),
                 (Button, LetterButton, MultiRowButton)))
-        try:
-            kind = data['kind']
-            del data['kind']
-        except KeyError:
-            kind = 'standard'
+        data = dict (data)
+        kind = data.pop ('kind', 'standard')
         return kindMap[kind] (**data)
 
     def serialize (self):
@@ -86,7 +83,7 @@ class Button:
             d['isMarked'] = self.isMarked
         # turn the tuple back into a list
         if d['scancode'] and 'windows' in d['scancode']:
-            d['scancode']['windows'] = list (d['scancode']['windows'])
+            d['scancode'] = dict (d['scancode'], windows=list (d['scancode']['windows']))
         return d
 
 class LetterButton (Button):
-- 
2.43.0


From e9e45732c2e9d71a0b0ef644e05bb63052aebbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 04/17] fix: pickle buttons by name, not by process-local id

---
 lulua/keyboard.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index 68844dd..f2bfcef 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -63,6 +63,10 @@ class Button:
     def __hash__ (self):
         return hash (self.i)
 
+    def __reduce__ (self):
+        # .i is only valid within this process
+        return (self.__class__, (self.name, self.width, self.isMarked, self.scancode))
+
     @property
     def name (self):
         return Button._idToName[self.i]
@@ -115,6 +119,9 @@ class MultiRowButton (Button):
     def __repr__ (self): # pragma: no cover
         return f'MultiRowButton({self.name!r}, {self.span!r}, {self.isMarked!r})'
 
+    def __reduce__ (self):
+        return (self.__class__, (self.name, self.span, self.width, self.isMarked, self.scancode))
+
     def serialize (self):
         d = super ().serialize ()
         d['span'] = self.span
-- 
2.43.0


From bbc3376fe68f2b771ddaf6cb6b5dc03f0c198bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 05/17] fix: pass keyboard when copying a keyboard layout

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 5e021fe..81b7c7c 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -163,7 +163,7 @@ class KeyboardLayout:
 
     def copy (self):
         layers = copy.deepcopy (self.layers)
-        return self.__class__ (self.name[:], layers)
+        return self.__class__ (self.name[:], layers, self.keyboard)
 
     def getText (self, comb: ButtonCombination) -> Text:
         """ Get input text for combination """
-- 
2.43.0


From df2d6b2ee7f62258fe399e7c9f8fb3698901b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 06/17] fix: report the energy of the best layout found, not of
 the last one tried

---
 lulua/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index facba17..dc39242 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -342,6 +342,8 @@ def optimize ():
             opt.mutate (withEnergy=False)
     try:
         state, relEnergy = opt.run (steps=args.steps)
+        # the annealer usually ends in a different, worse state
+        opt.state = state
         energy = opt.energy ()
         optimalButtonMap = state.buttonMap
     except KeyboardInterrupt:
-- 
2.43.0


From af27335bcc1870d8c406fa432bc025b7bfb4d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 07/17] fix: do not loop forever on truncated brotli streams

---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index ea91139..fc0900d 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -128,7 +128,10 @@ class BrotliFile:
         while not self.decompressor.is_finished ():
             if num is not None and len (self.buf) >= num:
                 break
-            self.buf += self.decompressor.process (self.fd.read (self.readchunk))
+            chunk = self.fd.read (self.readchunk)
+            if not chunk:
+                raise EOFError ('truncated brotli stream')
+            self.buf += self.decompressor.process (chunk)
         if num is not None:
             b = self.buf[0:num]
             self.buf = self.buf[num:]
-- 
2.43.0


From 364bca30b36d65e7cdc49dfd7013b49d7451d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 08/17] fix: do not lose text after nested matching elements

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index fc0900d..bf9e22f 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -61,7 +61,7 @@ class Select (Filter):
             if ttype == 'StartTag':
                 tname = token['name']
                 tdata = token['data']
-                if self.f (token):
+                if self.inside is None and self.f (token):
                     self.inside = 0
                 if tname in {'script', 'style'}:
                     isScript = 0
-- 
2.43.0


From 9d4ea0d4d7baa6bd0e1932917a06865003f8c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 09/17] fix: skip script and style elements with child elements
 entirely

---
 lulua/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index bf9e22f..b90247d 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -63,10 +63,12 @@ class Select (Filter):
                 tdata = token['data']
                 if self.inside is None and self.f (token):
                     self.inside = 0
-                if tname in {'script', 'style'}:
+                if isScript is None and tname in {'script', 'style'}:
                     isScript = 0
 
             if isScript is not None:
+                if ttype == 'StartTag':
+                    isScript += 1
                 if ttype == 'EndTag':
                     isScript -= 1
                     if isScript <= 0:
-- 
2.43.0


From 979f77c392bcadd0765ac65475c3413e5cd4e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 10/17] fix: add attributes to bottom row keys of
 AnySoftKeyboard layouts

---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index bc09e4c..38f8d96 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -462,7 +462,7 @@ def renderAsk (args):
             # backspace
             {'ask:isFunctional': 'true', 'android:keyWidth': '25%p', 'android:codes': '-5', 'android:keyEdgeFlags': 'right', 'android:isRepeatable': 'true'},
             ]:
-        ET.SubElement (rowelem, 'Key', )
+        ET.SubElement (rowelem, 'Key', attrib=attrib)
 
     tree = ET.ElementTree (kbdelem)
     tree.write (args.output, encoding='utf-8', xml_declaration=True)
-- 
2.43.0


From 3caf565009d04cb91ef78c4274e9b53cb794e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 11/17] fix: terminate prefixed scancode tables

---
 lulua/winkbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lulua/winkbd.py b/lulua/winkbd.py
index 0f4dffc..98a1cf9 100644
--- a/lulua/winkbd.py
+++ b/lulua/winkbd.py
@@ -450,6 +450,7 @@ def scancodeToVkTables (m):
         f = lambda x: len (x[0]) == 2 and x[0][0] == escape
         for k, v in sorted (filter (f, m.items ()), key=lambda x: x[0]):
             ret.append (f'\t{{ 0x{k[1]:x}, {enumOr (v)} }},')
+        ret.append ('\t{ 0, 0 }')
         ret.append ('\t};\n')
 
     return '\n'.join (ret)
-- 
2.43.0


From 180c61ca7a135c60697df96c9afc1b41535dd039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:29 +0000
Subject: [PATCH 12/17] fix: do not select elements inside of script and style
 elements

A matching element inside of a skipped script/style element (possible in
SVG) was marked as selected, although its tokens are skipped, and thus
everything following it was extracted.
---
 lulua/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index b90247d..0e9082c 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -61,10 +61,10 @@ class Select (Filter):
             if ttype == 'StartTag':
                 tname = token['name']
                 tdata = token['data']
-                if self.inside is None and self.f (token):
-                    self.inside = 0
                 if isScript is None and tname in {'script', 'style'}:
                     isScript = 0
+                if isScript is None and self.inside is None and self.f (token):
+                    self.inside = 0
 
             if isScript is not None:
                 if ttype == 'StartTag':
-- 
2.43.0


From e95fc5cb7fd1814d3e4a921b31e75da2fe6ad0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:40 +0000
Subject: [PATCH 13/17] fix: KLC import assigned OEM_3 to the key of the digit
 1, whose line overwrote it

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 81b7c7c..5b07578 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -245,7 +245,7 @@ class GenericLayout:
             return unicodedata.normalize ('NFD', chr (n))
 
         vkToButton = {
-            'OEM_3': 'Bl2',
+            'OEM_3': 'Bl1',
             '1': 'Bl2',
             '2': 'Bl3',
             '3': 'Bl4',
-- 
2.43.0


From c6ac7a07978979218be037efc649f6cde198daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:40 +0000
Subject: [PATCH 14/17] fix: KLC import assigned OEM_5 to a key that does not
 exist

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 5b07578..c9317f0 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -271,7 +271,7 @@ class GenericLayout:
             'P': 'Cr3',
             'OEM_4': 'Cr2',
             'OEM_6': 'Cr1',
-            'OEM_5': 'Cr0',
+            'OEM_5': 'Dr1',
 
             'A': 'Dl1',
             'S': 'Dl2',
-- 
2.43.0


From ec328cf8a5ef993aec2fea2ab88d763abcd5de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:40 +0000
Subject: [PATCH 15/17] fix: KLC import used an AltGr key that does not exist

---
 lulua/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index c9317f0..8768c95 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -336,8 +336,8 @@ class GenericLayout:
                 1: [('El_shift', ), ('Er_shift', )],
                 2: [('Fl_ctrl', ), ('Fr_ctrl', )],
                 3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],
-                4: [('Er_altgr', )],
-                5: [('El_shift', 'Er_altgr')],
+                4: [('Fr_altgr', )],
+                5: [('El_shift', 'Fr_altgr')],
                 }
             return layers, layerSwitches
 
-- 
2.43.0


From 4443b8faf0d516f381bd37283f0a179865a64f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:40 +0000
Subject: [PATCH 16/17] fix: KLC import took lines after the layout section for
 keys if there are no ligatures

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 8768c95..d60a68b 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -314,7 +314,7 @@ class GenericLayout:
                 line = line.strip ()
                 if line.startswith ('LAYOUT'):
                     mode = 'layout'
-                elif line == 'LIGATURE':
+                elif line.startswith (('LIGATURE', 'DEADKEY', 'KEYNAME', 'DESCRIPTIONS', 'LANGUAGENAMES')):
                     mode = None
                 elif mode == 'layout':
                     try:
-- 
2.43.0


From e15c8990c39700e805e1a212bb8f6fb8db86f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:23 +0000
Subject: [PATCH 17/17] fix: reject characters that do not fit into a wchar_t
 of the Windows driver

---
 lulua/winkbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/winkbd.py b/lulua/winkbd.py
index 98a1cf9..48cfa3c 100644
--- a/lulua/winkbd.py
+++ b/lulua/winkbd.py
@@ -620,7 +620,7 @@ def vkToWchar (m):
             def toRepr (s):
                 if s is None:
                     return WChar.NONE.cdefName
-                elif len (s) != 1:
+                elif len (s) != 1 or ord (s) > 0xffff:
                     # everything else belongs to ligature tables, which we
                     # don’t support.
                     raise Exception (f'only single-character strings are supported ({s!r})')
-- 
2.43.0

