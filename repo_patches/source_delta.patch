From eec40327781b8ee89ec0c9eb2f2ea147be6a5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 01/27] fix: let the shell print results that are not strings

get and get_candidates always failed, because _print() can only write strings.
---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 20c2ecb..6c601a1 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -349,7 +349,7 @@ class Shell(object):
             elif result is None:
                 pass
             else:
-                self._print(result)
+                self._print(str(result))
         except Exception as e:
             self.error(str(e))
             # raise
-- 
2.43.0


From 6981b6d2669117add0f2538607730e64d4710b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 02/27] fix: make the help command work on Python >= 3.11

inspect.getargspec() does not exist any more.
---
 sudokutools/shell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 6c601a1..32c898a 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -198,7 +198,11 @@ def signature_str(func):
         'a b=3'
     """
     arg_str = []
-    spec = inspect.getargspec(func)
+    # getargspec() was removed in Python 3.11.
+    if hasattr(inspect, "getfullargspec"):
+        spec = inspect.getfullargspec(func)
+    else:
+        spec = inspect.getargspec(func)
     args, defaults = spec.args, spec.defaults
 
     # ignore first argument on methods.
-- 
2.43.0


From ac9540ebb489e19406f740ee01ee4ff15354c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 03/27] fix: honour the number_sep argument of view()

---
 sudokutools/sudoku.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 6539d81..76a2195 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -589,10 +589,11 @@ def view(
     """
 
     max_length = max([len(str(n)) for n in sudoku.numbers])
-    if max_length > 1:
-        number_sep = ","
-    else:
-        number_sep = ""
+    if number_sep is None:
+        if max_length > 1:
+            number_sep = ","
+        else:
+            number_sep = ""
 
     # In case, candidates aren't calculated yet, this gives a
     # better representation.
-- 
2.43.0


From 234cb3174487e99b93bcc129d5f45b0218d37133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 04/27] fix: draw correct rules in view(), if boxes have a
 height of 1

---
 sudokutools/sudoku.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 76a2195..b295245 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -610,10 +610,14 @@ def view(
 
     dash_count = sudoku.box_width + sudoku.box_width * max_field_length
 
-    rule = "-" * dash_count + "+"
-    for i in range(sudoku.box_height - 2):
-        rule += "-" * (dash_count + 1) + "+"
-    rule += "-" * dash_count + "\n"
+    if sudoku.box_height > 1:
+        rule = "-" * dash_count + "+"
+        for i in range(sudoku.box_height - 2):
+            rule += "-" * (dash_count + 1) + "+"
+        rule += "-" * dash_count + "\n"
+    else:
+        # There's only one box per row.
+        rule = "-" * (dash_count - 1) + "\n"
 
     s = ""
 
-- 
2.43.0


From e45433f72cceb5244cc139ab596945f74c8f3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 05/27] fix: let solve() terminate on sudokus without a
 solution

Fields without any candidates left made CalculateCandidates find steps forever.
---
 sudokutools/solvers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e86cc97..ae41222 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -568,9 +568,18 @@ def solve(sudoku, report=lambda step: None):
 
     solution = sudoku.copy()
     init_candidates(solution, filled_only=True)
+    calculated = False
 
     while True:
         for cls in SOLVERS:
+            # Only calculate candidates once: A field without candidates
+            # can't be filled, and calculating them again (and again) would
+            # keep us from ever returning, if there is no solution.
+            if cls is CalculateCandidates:
+                if calculated:
+                    continue
+                calculated = True
+
             count = 0
 
             for step in cls.find(solution):
-- 
2.43.0


From 723e2d67d971dda2c9cda1e500756da6f8786e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 06/27] fix: compare with the empty character by value in
 Sudoku.decode()

Non-latin-1 characters are not interned, so decoding them failed.
---
 sudokutools/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index b295245..a8fa285 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -394,7 +394,7 @@ class Sudoku(object):
             items = sudoku_str
 
         for item in items:
-            if item is empty:
+            if item == empty:
                 sudoku[row, col] = 0
             else:
                 sudoku[row, col] = int(item)
-- 
2.43.0


From 0e79603d4f2f21004e91d13e96ac1eb81398469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 07/27] fix: ignore additional whitespace and empty candidate
 lists in Sudoku.decode()

Both raised a ValueError, if number_sep was given.
---
 sudokutools/sudoku.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index a8fa285..c2a0b96 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -360,7 +360,7 @@ class Sudoku(object):
         # try to get size automatically:
         if box_size is None:
             if number_sep:
-                count = len(sudoku_str.split(number_sep))
+                count = len([i for i in sudoku_str.split(number_sep) if i])
             else:
                 count = len(sudoku_str)
 
@@ -389,7 +389,8 @@ class Sudoku(object):
         row = 0
 
         if number_sep:
-            items = sudoku_str.split(number_sep)
+            # Whitespace next to a separator results in empty items.
+            items = [i for i in sudoku_str.split(number_sep) if i]
         else:
             items = sudoku_str
 
@@ -416,7 +417,7 @@ class Sudoku(object):
         for c in candidate_str.split(candidate_sep):
             c = c.strip()
             if number_sep:
-                candidates = [int(item) for item in c.split(number_sep)]
+                candidates = [int(item) for item in c.split(number_sep) if item]
             else:
                 candidates = [int(item) for item in c]
             sudoku.set_candidates(row, col, candidates)
-- 
2.43.0


From 39a6a626c6a0a86a52d1f2ea9652a40a50df28bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 08/27] fix: separate candidates in Sudoku.encode()

Without separators candidates > 9 are ambiguous, and decode() with
number_sep could not read the candidates of any sudoku back.
---
 sudokutools/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index c2a0b96..f0a6b3a 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -280,7 +280,7 @@ class Sudoku(object):
 
             for row, col in self:
                 clist = list(self.get_candidates(row, col))
-                cstr = "".join([str(i) for i in sorted(clist)])
+                cstr = col_sep.join([str(i) for i in sorted(clist)])
                 all_candidates.append(cstr)
 
             s += "|" + ",".join(all_candidates)
-- 
2.43.0


From a30afc7a6af4da6f138dc47d2ff9bee8cfd97616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 09/27] fix: don't let a sudoku equal the corner of a larger
 one

Sudoku.__eq__() wasn't symmetric.
---
 sudokutools/sudoku.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index f0a6b3a..e1e5a43 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -153,6 +153,10 @@ class Sudoku(object):
             bool: True, if all fields are equal and false if not or other
                   is an incompatible type.
         """
+        # A smaller sudoku isn't equal to the upper left part of a larger one.
+        if isinstance(other, Sudoku) and len(self) != len(other):
+            return False
+
         try:
             for row, col in self:
                 if self[row, col] != other[row, col]:
-- 
2.43.0


From 73ecf835ab434a9da0d5c277bd2a2ad857ea540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 10/27] fix: remove whitespace in notation.decode()

replace() only looked for all whitespace characters in a row.
---
 sudokutools/notation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bece0f8..734c97d 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -182,7 +182,7 @@ def decode(s, width=3, height=3, sep=",", nsep=""):
     # there is none present in the separators.
     if not any([c in sep for c in string.whitespace]) and \
        not any([c in nsep for c in string.whitespace]):
-        s = s.replace(string.whitespace, "")
+        s = "".join([c for c in s if c not in string.whitespace])
 
     # Split multiple groups.
     groups = [s]
-- 
2.43.0


From 1ce1589a3994bcc13115a8438b10a30327f89cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 11/27] fix: reject all malformed groups in notation.decode()

Repeated qualifiers (r1r2) and qualifiers without numbers at the end
(r1c) were silently dropped, a single qualifier (r) raised a TypeError.
---
 sudokutools/notation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 734c97d..0bb6255 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -227,7 +227,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
     number_str = ""     # An accumulation of all numbers for the current item.
 
     for c in group:
-        if c in present:
+        if c in present or c == current:
             raise ValueError(
                 "Malformed group '%s'. '%s' has multiple occurrences." %
                 (group, c))
@@ -268,6 +268,11 @@ def _decode_single(group, width=3, height=3, nsep=""):
         else:
             numbers = [int(n) - 1 for n in number_str.split(nsep)]
 
+        if not numbers:
+            raise ValueError(
+                "Malformed group '%s'. No numbers given for '%s'" %
+                (group, current))
+
         all_numbers[current] = numbers
     elif not present:
         raise ValueError("Empty group '%s'" % group)
-- 
2.43.0


From 611352bcf9768873906aa4fdd691fa8e65fdc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 12/27] fix: make encode_action() and decode_action('-...')
 work

encode_action() failed on numbers (or returned None) and decode_action()
tried to convert the leading minus sign to a number.
---
 sudokutools/notation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 0bb6255..6acb380 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -291,11 +291,12 @@ def _decode_single(group, width=3, height=3, nsep=""):
 def encode_action(action, width=3, height=3):
     if isinstance(action, SetNumber):
         s = encode(action.coordinates, width=width, height=height)
-        s += "=" + action.number
+        s += "=" + str(action.number)
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join(sorted(action.candidates))
+        s += "<>" + "".join([str(c) for c in sorted(action.candidates)])
+        return s
 
 
 def decode_action(s, width=3, height=3):
@@ -303,7 +304,7 @@ def decode_action(s, width=3, height=3):
     if s.startswith("-"):
         left, sep, right = s.partition(" ")
         coordinates = decode(right, width=width, height=height)
-        candidates = [int(c) for c in left]
+        candidates = [int(c) for c in left[1:]]
         return RemoveCandidates(coordinates, candidates)
     elif "<>" in s:
         left, sep, right = s.partition("<>")
-- 
2.43.0


From c008b65587c978394ee781609c829e23b743099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 13/27] fix: don't crash the game shell on empty lines and on
 'settings'

---
 sudokutools/shell.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 32c898a..e87c9c2 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -71,7 +71,7 @@ class GameShell(object):
             init_candidates(self.sudokus[0], filled_only=True)
 
     def get_setting(self, key):
-        return self.settings[key][0]
+        return self.settings[key]
 
     def run(self):
         print("sudokutools game shell %s" % __version__)
@@ -84,6 +84,11 @@ class GameShell(object):
             print("> ", end="")
             line = input()
             splitted = line.split()
+
+            # ignore empty lines
+            if not splitted:
+                continue
+
             command = splitted[0]
 
             if command == "hint":
@@ -114,7 +119,8 @@ class GameShell(object):
                     print(s)
             elif command == "settings":
                 for key in sorted(self.settings):
-                    value, desc = self.settings[key]
+                    value = self.settings[key]
+                    desc = self.settings_desc[key]
                     s = "%s = %s" % (key, value)
                     s = s.ljust(20, " ")
                     s += " # %s" % desc
-- 
2.43.0


From d9ee87c55e0fc88f332047dba24d65bc488dfa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 14/27] fix: search for new hints, if candidates have changed

The game shell kept on showing hints, which were already applied.
---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index e87c9c2..a9c86c8 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -92,7 +92,8 @@ class GameShell(object):
             command = splitted[0]
 
             if command == "hint":
-                if self.hints is None or self.hinted_sudoku != sudoku:
+                if self.hints is None or not self.hinted_sudoku.equals(
+                        sudoku, candidates=True):
                     self.hinted_sudoku = sudoku.copy(include_candidates=True)
                     self.hints = hints(sudoku)
                 try:
-- 
2.43.0


From c930e5e186963605266685bdec73caf443a7a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 15/27] fix: keep the shell usable after a keyboard interrupt

An interrupted line was prepended to the next one and after interrupting
a loop, all commands were silently added to this loop.
---
 sudokutools/shell.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index a9c86c8..371f166 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -398,6 +398,7 @@ class Shell(object):
                 if self.interactive:
                     self._print("\nUse 'exit' to leave the shell.")
                     line = "\n"
+                    lines = ""
                 else:
                     sys.exit(2)
 
@@ -430,6 +431,7 @@ class Shell(object):
                     lines = ""
             except KeyboardInterrupt:
                 self._print("")
+                lines = ""
 
                 if not self.interactive:
                     sys.exit(2)
@@ -481,13 +483,15 @@ class Shell(object):
 
             self.prompt = self.command_prompt
 
-            # run commands
-            for _ in range(self.__loop_n):
-                for command in self.__loop_command_list:
-                    self.execute(*command)
-
+            # The loop is no longer defined (even if running it is interrupted).
+            loop_n, loop_command_list = self.__loop_n, self.__loop_command_list
             self.__loop_n = None
             self.__loop_command_list = []
+
+            # run commands
+            for _ in range(loop_n):
+                for command in loop_command_list:
+                    self.execute(*command)
         else:
             try:
                 n = int(n)
-- 
2.43.0


From 4f000f58bfec1124579100083e935d67136e5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 16/27] fix: don't execute commands after exit

---
 sudokutools/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 371f166..4d54ebd 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -374,6 +374,9 @@ class Shell(object):
                 # always exit
                 if command[0] == Shell.exit_command:
                     self.execute(*command)
+                    # don't execute the rest of the line
+                    if not self.running:
+                        return
                 # if we're defining a loop, only execute loop commands.
                 elif self.__loop_n and command[0] != Shell.loop_command:
                     self.__loop_command_list.append(command)
-- 
2.43.0


From ec5dc590f816ed1bcca22656f5d40e86aee83825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 17/27] fix: find each hidden tuple only once

---
 sudokutools/solvers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index ae41222..306f6f2 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -361,12 +361,11 @@ class HiddenTuple(SolveStep):
 
             if len(max_set) <= cls.n:
                 # hidden tuple found - only yield, if there are actions to apply
-                for (row, col) in max_set:
-                    affected = [(r, c) for r, c in max_set
-                                if sudoku.get_candidates(r, c) - set(numbers)]
+                affected = [(r, c) for r, c in max_set
+                            if sudoku.get_candidates(r, c) - set(numbers)]
 
-                    if affected:
-                        yield cls(clues=coords, affected=affected, values=numbers)
+                if affected:
+                    yield cls(clues=coords, affected=affected, values=numbers)
 
 HiddenPair = type("HiddenPair", (HiddenTuple,), dict(n=2))
 HiddenTriple = type("HiddenTriple", (HiddenTuple,), dict(n=3))
-- 
2.43.0


From 05477942ccf8903dfc6baf9bf5b04273cc677a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 18/27] fix: raise ValueError in generate(), if symmetry isn't
 hashable

---
 sudokutools/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/generate.py b/sudokutools/generate.py
index 164c888..ea07177 100644
--- a/sudokutools/generate.py
+++ b/sudokutools/generate.py
@@ -87,7 +87,7 @@ def generate(min_count=0, symmetry=None, box_size=(3, 3)):
 
     try:
         symmetry_func = SYMMETRY[symmetry]
-    except KeyError:
+    except (KeyError, TypeError):
         values = ", ".join([str(key) for key in SYMMETRY])
         raise ValueError("symmetry must be one of %s" % values)
 
-- 
2.43.0


From fbde7e177ea832ba517c4eed352660eb52109058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 19/27] fix: show the right default values in the help of the
 shell

signature_str() assigned them wrongly, if there was more than one.
---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 4d54ebd..29a2ebb 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -218,7 +218,7 @@ def signature_str(func):
 
     for i, name in enumerate(args):
         if spec.defaults and i >= len(args) - len(defaults):
-            j = i - len(defaults)
+            j = i - len(args)
             arg_str.append("%s=%s" % (name, repr(defaults[j])))
         else:
             arg_str.append(name)
-- 
2.43.0


From 67a3d509bccea89a250b9f062ec46c1d0d05bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 20/27] fix: find each hidden tuple only once, if boxes are
 rows or columns

---
 sudokutools/solvers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index 306f6f2..81ab769 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -325,8 +325,9 @@ class HiddenTuple(SolveStep):
 
     @classmethod
     def find(cls, sudoku):
-        # keep track of yielded steps
-        yielded_coords = []
+        # keep track of yielded steps (if boxes have a width or a height of 1,
+        # they're identical to columns or rows)
+        yielded = []
 
         # we work through rows, cols and quads in 3 steps, since the
         # empty fields can changed in-between
@@ -338,7 +339,9 @@ class HiddenTuple(SolveStep):
                     clist.append(coords)
             for coords in clist:
                 for step in cls.__find_at(sudoku, coords):
-                    yield step
+                    if (step.clues, step.values) not in yielded:
+                        yielded.append((step.clues, step.values))
+                        yield step
 
     @classmethod
     def __find_at(cls, sudoku, coords):
-- 
2.43.0


From d4eaaca197e0eef1c379b5564cd9e29a883c6769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 21/27] fix: raise ValueError on malformed numbers next to long
 separators

decode('r1 ', sep=', ', nsep=', ') was accepted, because int() ignores
whitespace (and allows signs and underscores).
---
 sudokutools/notation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 6acb380..8a45874 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -237,7 +237,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
                 if not nsep:
                     numbers = [int(n)-1 for n in number_str]
                 else:
-                    numbers = [int(n)-1 for n in number_str.split(nsep)]
+                    numbers = [_int(n)-1 for n in number_str.split(nsep)]
 
                 if not numbers:
                     raise ValueError(
@@ -266,7 +266,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
         if not nsep:
             numbers = [int(n) - 1 for n in number_str]
         else:
-            numbers = [int(n) - 1 for n in number_str.split(nsep)]
+            numbers = [_int(n) - 1 for n in number_str.split(nsep)]
 
         if not numbers:
             raise ValueError(
@@ -288,6 +288,14 @@ def _decode_single(group, width=3, height=3, nsep=""):
     return set.intersection(*all_sets.values())
 
 
+def _int(s):
+    """Same as int(s), but allow nothing except digits."""
+    # A longer separator may contain signs, whitespace or underscores.
+    if not s.isdigit():
+        raise ValueError("Invalid number: '%s'" % s)
+    return int(s)
+
+
 def encode_action(action, width=3, height=3):
     if isinstance(action, SetNumber):
         s = encode(action.coordinates, width=width, height=height)
-- 
2.43.0


From 0703827d0e8ad80b9854d4989b90cf2578f9bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 22/27] fix: treat commands given with -c like any other input

Comments, several lines and line wraps failed in commands given with -c,
an interrupt did not lead to exit status 2 and an empty command started
reading from stdin.
---
 sudokutools/__main__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sudokutools/__main__.py b/sudokutools/__main__.py
index f8e6a1d..8107e37 100644
--- a/sudokutools/__main__.py
+++ b/sudokutools/__main__.py
@@ -5,6 +5,11 @@ import sys
 
 from sudokutools.shell import Shell
 
+try:
+    from StringIO import StringIO
+except ImportError:
+    from io import StringIO
+
 
 def main():
     """Run the sudokutools shell."""
@@ -29,8 +34,9 @@ def main():
             print(e, file=sys.stderr)
             sys.exit(1)
 
-    elif arguments.command:
-        Shell(interactive=False).execute_line(arguments.command)
+    elif arguments.command is not None:
+        # Treat the command like any other input (comments, line wraps, ...).
+        Shell(interactive=False, infile=StringIO(arguments.command)).run()
     # read commands from stdin
     else:
         Shell().run()
-- 
2.43.0


From e6a3fc7f0428edd8fb73c5d1379f01ad5b40ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 23/27] fix: report malformed arguments like {[]} instead of
 crashing the shell

---
 sudokutools/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 29a2ebb..cfe4d67 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -259,7 +259,10 @@ def parse(s):
                     else:
                         args.append(literal_eval(value))
 
-            except (SyntaxError, ValueError):
+            # literal_eval() also raises the latter three for malformed input
+            # (RecursionError is a RuntimeError).
+            except (SyntaxError, ValueError,
+                    TypeError, MemoryError, RuntimeError):
                 raise ValueError("Invalid argument: %s " % value +
                                  "(Did you forget quotation marks?)")
 
-- 
2.43.0


From 58873216385e831427edabf29b35fd64b1a8a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 24/27] fix: bruteforce() yields no solutions for numbers which
 don't exist in the sudoku

---
 sudokutools/solve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudokutools/solve.py b/sudokutools/solve.py
index 112574a..3fedf2b 100644
--- a/sudokutools/solve.py
+++ b/sudokutools/solve.py
@@ -90,6 +90,9 @@ def bruteforce(sudoku):
     for row, col in sudoku:
         value = sudoku[row, col]
         if value:
+            # A number which is impossible in this sudoku can't be solved.
+            if value not in sudoku.numbers:
+                return
             for (i, j) in sudoku.surrounding_of(row, col, include=False):
                 if sudoku[i, j] == value:
                     return
-- 
2.43.0


From 55fb236a40ae3f7e97dbb56e0ad755084c9554e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 25/27] fix: the game with autoset never returned after a field
 was cleared (r1c1=0)

---
 sudokutools/shell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index cfe4d67..38ab179 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -183,7 +183,9 @@ class GameShell(object):
             if self.settings.get("autoset", False):
                 for row, col in sudoku.empty():
                     candidates = sudoku.get_candidates(row, col)
-                    if len(candidates) == 1:
+                    # Clearing a field leaves 0 as its candidate, setting this
+                    # again (and again) would keep us from ever returning.
+                    if len(candidates) == 1 and 0 not in candidates:
                         for value in candidates:
                             sudoku[(row, col)] = value
                             if verbose:
-- 
2.43.0


From 72f472e1fa772afef0915fa9eb36de62c44cf8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 26/27] fix: only the numbers of the first box of a created
 solution were random

The row and column drawn were below the box height and width and so always
those of a field in the first box.
---
 sudokutools/generate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudokutools/generate.py b/sudokutools/generate.py
index ea07177..8946d4d 100644
--- a/sudokutools/generate.py
+++ b/sudokutools/generate.py
@@ -46,8 +46,8 @@ def create_solution(box_size=(3, 3)):
     sudoku = Sudoku(box_size=box_size)
 
     # fill a single box and let dlx do the rest
-    row = choice(range(sudoku.box_height))
-    col = choice(range(sudoku.box_width))
+    row = choice(range(0, len(sudoku.indices), sudoku.box_height))
+    col = choice(range(0, len(sudoku.indices), sudoku.box_width))
     numbers = list(sudoku.numbers)
     shuffle(numbers)
 
-- 
2.43.0


From f08a997849ca577700143b1d66aeb5412f275b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 27/27] fix: the documented size limit was wrong (the recursion
 is as deep as the number of fields)

---
 sudokutools/generate.py | 2 +-
 sudokutools/solve.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudokutools/generate.py b/sudokutools/generate.py
index 8946d4d..9f7eb95 100644
--- a/sudokutools/generate.py
+++ b/sudokutools/generate.py
@@ -9,7 +9,7 @@ Warning:
     Since the functions in this module work using recursion,
     generating very large Sudokus will likely
     To be more precise: Python will raise an RecursionError,
-    if ``box_width * box_height >= sys.getrecursionlimit()``.
+    if ``(box_width * box_height) ** 2 >= sys.getrecursionlimit()``.
 
     If you really want to generate Sudokus of this size using sudokutools,
     you have to increase the recursion limit of Python. See:
diff --git a/sudokutools/solve.py b/sudokutools/solve.py
index 3fedf2b..ebecec6 100644
--- a/sudokutools/solve.py
+++ b/sudokutools/solve.py
@@ -10,7 +10,7 @@ Warning:
     Since the functions in this module work using recursion,
     solving very large Sudokus will likely
     To be more precise: Python will raise an RecursionError,
-    if ``box_width * box_height >= sys.getrecursionlimit()``.
+    if ``(box_width * box_height) ** 2 >= sys.getrecursionlimit()``.
 
     If you really want to generate Sudokus of this size using sudokutools,
     you have to increase the recursion limit of Python. See:
-- 
2.43.0

