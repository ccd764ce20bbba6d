From 207d0053ce76787f7ff7254a4fc67c142c6d7f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 01/44] fix: return the comment, not the value, from
 Incar.get(tag, comment=True)

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 4b64ffc..65f4c13 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -365,7 +365,7 @@ class Incar(BaseParser):
         try:
             value = self.entries[tag].get_value()
             if comment:
-                com = self.entries[tag].get_value()
+                com = self.entries[tag].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From e8d5490b289991b0e38c6b56f59baf93e619acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 02/44] fix: write lists of logicals in INCAR as Fortran
 logicals

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 65f4c13..75864ac 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -267,7 +267,7 @@ class Incar(BaseParser):
 
         if isinstance(value, list):
             # List of values (we know all are either string, int or float)
-            string = ' '.join(map(str, value))
+            string = ' '.join(map(self._convert_value_to_string, value))
         else:
             if isinstance(value, bool):
                 if value:
-- 
2.43.0


From 4bb7b1113de6233dccc6564788f2ed8cf9826f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 03/44] fix: do not classify nan and inf as integers, which
 crashed the INCAR reader

---
 parsevasp/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8d06eb0..4c98c04 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -162,11 +162,13 @@ def test_string_content(string):
     """
     try:
         float(string)
-        return 'int' if ((string.count('.') == 0) and \
-                         ('e' not in string) and \
-                         ('E' not in string)) else 'float'
     except ValueError:
         return 'string'
+    try:
+        int(string)
+    except ValueError:
+        return 'float'
+    return 'int'
 
 
 def is_numbers(string, splitter=' '):
-- 
2.43.0


From e4b97d889fe8629e284c46990b023939aa9beff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 04/44] fix: accept a trailing ; in INCAR also without a line
 break or before a comment

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 75864ac..55be901 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -162,7 +162,7 @@ class Incar(BaseParser):
                 # Now split on ; as we could have combined entries
                 splitted = splitted[0].split(';')
                 for ntry in splitted:
-                    if ntry == '\n':
+                    if not ntry.strip():
                         # Skip if the user used ; at the end of a line
                         continue
                     # Then split on = and analyze each entry
-- 
2.43.0


From a3c722d5169ca631439d2e35d86cd28e15a0b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 05/44] fix: refuse every combination of string, dictionary and
 file input

---
 parsevasp/incar.py   | 7 +++----
 parsevasp/kpoints.py | 7 +++----
 parsevasp/poscar.py  | 7 +++----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 55be901..4423857 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -72,10 +72,9 @@ class Incar(BaseParser):
         self._width = self._prec + 4
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._incar_string is not None and self._incar_dict is not None) or (
-            self._incar_string is not None and self._file_path is not None
-        ) or (self._incar_dict is not None and self._file_path is not None) and self._file_handler is not None:
+        file_supplied = self._file_path is not None or self._file_handler is not None
+        sources = (self._incar_string is not None, self._incar_dict is not None, file_supplied)
+        if sum(sources) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 26552a6..956789d 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -98,10 +98,9 @@ class Kpoints(BaseParser):
         self._width = self._prec + 4
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._kpoints_string is not None and self._kpoints_dict is not None) or (
-            self._kpoints_string is not None and self._file_path is not None
-        ) or (self._kpoints_dict is not None and self._file_path is not None and self._file_handler is not None):
+        file_supplied = self._file_path is not None or self._file_handler is not None
+        sources = (self._kpoints_string is not None, self._kpoints_dict is not None, file_supplied)
+        if sum(sources) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7e2fec3..e5b99d1 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -80,10 +80,9 @@ class Poscar(BaseParser):
         self._conserve_order = conserve_order
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._poscar_string is not None and self._poscar_dict is not None) or (
-            self._poscar_string is not None and self._file_path is not None
-        ) or (self._poscar_dict is not None and self._file_path is not None and self._file_handler is not None):
+        file_supplied = self._file_path is not None or self._file_handler is not None
+        sources = (self._poscar_string is not None, self._poscar_dict is not None, file_supplied)
+        if sum(sources) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
-- 
2.43.0


From f049a4ef693f2d3931cc689d115850f0f0bd1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 06/44] fix: return the stored entry from Kpoints.get and
 Poscar.get

---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 956789d..302179e 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -798,7 +798,7 @@ class Kpoints(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index e5b99d1..6aea7f0 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -754,7 +754,7 @@ class Poscar(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From ca283af72306d161aac034209043e8087bc07114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 07/44] fix: keep the number of k-points in step when a point
 is deleted

---
 parsevasp/kpoints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 302179e..66c526f 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -361,6 +361,9 @@ class Kpoints(BaseParser):
         self._check_points()
         self._check_point_number(point_number)
         del self.entries['points'][point_number]
+        if self.entries['mode'] == 'explicit':
+            # The number of points is written in the file
+            self.entries['num_kpoints'] = len(self.entries['points'])
 
     def add_point(self, point_number):
         """
-- 
2.43.0


From 8bf64760a38a4acfba611d987f40c485e04e7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 08/44] fix: match the KPOINTS entry names exactly and accept
 the generating vectors

---
 parsevasp/kpoints.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 66c526f..42a9bb7 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -409,9 +409,8 @@ class Kpoints(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
-                ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry):
+        if entry not in ('comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'mode', 'num_kpoints', 'shifts',
+                         'centering', 'generating_vectors'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
-- 
2.43.0


From b47207b78cd67545de52461e72c1b7755124a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 09/44] fix: check the supplied comment and not the stored one

---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 42a9bb7..23bf1f1 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -432,7 +432,7 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 6aea7f0..275b279 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -503,7 +503,7 @@ class Poscar(BaseParser):
                 self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
-- 
2.43.0


From 1127b897bf17179ec6778c015eb6935cca4b0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 10/44] fix: skip every kind of blank line between the segments
 of a line-mode KPOINTS

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 23bf1f1..0128f07 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -256,7 +256,7 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
-                if kpoints[true_index] != '\n':
+                if kpoints[true_index].strip():
                     entry = kpoints[true_index].split()[0:3]
                     coordinate = np.asarray([float(element) for element in entry])
                     point = Kpoint(coordinate, 1.0)
-- 
2.43.0


From 597ad83ce7ff5b13767238e2a2bf8d229789e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 11/44] fix: accept a blank line after the points of an
 explicit KPOINTS

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 0128f07..7dcf52c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -208,7 +208,7 @@ class Kpoints(BaseParser):
                 points.append(Kpoint(point, weight, direct=direct))
             loopmax = num_kpoints + loopmax
             if len(kpoints) > loopmax:
-                if kpoints[loopmax].strip()[0].lower() == 't':
+                if kpoints[loopmax].strip().lower().startswith('t'):
                     # Tetrahedron info present
                     tetra = []
                     loopmax = loopmax + 1
-- 
2.43.0


From 0a65145c4b99090d32f6612794825cd54f8376ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 12/44] fix: do not drop the shift of an automatic KPOINTS
 which has more than five lines

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 7dcf52c..4a843e9 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -234,7 +234,7 @@ class Kpoints(BaseParser):
                 else:
                     centering = 'Monkhorst-Pack'
                 divisions = [int(element) for element in kpoints[3].split()]
-                if len(kpoints) == 5:
+                if len(kpoints) > 4 and kpoints[4].strip():
                     shifts = [float(element) for element in kpoints[4].split()]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
-- 
2.43.0


From 92aa8645f6751dbb50061bd490bea6afdda5a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 13/44] fix: store the sites which are created from
 dictionaries

---
 parsevasp/poscar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 275b279..f527e5a 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -145,7 +145,7 @@ class Poscar(BaseParser):
         """
 
         sites = self._poscar_dict['sites']
-        for site in sites:
+        for index, site in enumerate(sites):
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
@@ -157,7 +157,9 @@ class Poscar(BaseParser):
                     if velocities is not None:
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                     direct = True
-                site = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
+                sites[index] = Site(
+                    site['specie'], position, site['selective'], velocities, site['predictors'], direct
+                )
             else:
                 if not site.get_direct():
                     # Cartesian, so convert.
-- 
2.43.0


From b178fcbc0f896a92482b9681431f3b1fc919f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 14/44] fix: do not convert direct velocities which follow
 cartesian positions

---
 parsevasp/poscar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index f527e5a..8fa195f 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -285,9 +285,8 @@ class Poscar(BaseParser):
             first_char = poscar[loopmax_pos][0].lower()
             if first_char in ('d', 'c'):
                 velocities = True
-                if first_char == 'c':
-                    # Make sure we convert velocities to direct
-                    direct = False
+                # Make sure we convert cartesian velocities to direct, and leave direct velocities as they are
+                direct = first_char == 'd'
             elif poscar[loopmax_pos].replace(' ', '') == '\n':
                 predictor = True
         # Now check that the next line is in fact a coordinate
-- 
2.43.0


From f74f5c2cf0b1404a65eabd07325e9921ca052fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 15/44] fix: exit with the documented code when a POSCAR entry
 is missing

---
 parsevasp/poscar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 8fa195f..b97aa23 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -475,7 +475,7 @@ class Poscar(BaseParser):
             try:
                 unitcell = self.entries['unitcell']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'unitcell'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'unitcell'.")
                 sys.exit(self.ERROR_NO_KEY)
 
         if (not isinstance(unitcell, np.ndarray)) \
@@ -501,7 +501,7 @@ class Poscar(BaseParser):
             try:
                 comment = self.entries['comment']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if comment is not None:
@@ -527,7 +527,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
@@ -548,7 +548,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
             for _site in sites:
                 if not isinstance(_site, Site):
-- 
2.43.0


From e8c7a77f289d7b0fdff7db2ded51062c563839f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 16/44] fix: skip consecutive species without sites in POSCAR

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index b97aa23..ffc5ec8 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -247,7 +247,7 @@ class Poscar(BaseParser):
         # Loop positions
         for i in range(nions):
             # Fetch specie
-            if index > atoms[specie_slot]:
+            while index > atoms[specie_slot]:
                 specie_slot = specie_slot + 1
                 index = 1
             specie = spec[specie_slot]
-- 
2.43.0


From 96b3a23ada58309903b0e6bb9cf83c954c6f6dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 17/44] fix: detect VASP 4 POSCAR files also with leading or
 repeated blanks

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index ffc5ec8..baf86eb 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -198,7 +198,7 @@ class Poscar(BaseParser):
         comment = poscar[0].replace('#', '').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-        if utils.is_numbers(poscar[5]):
+        if utils.is_numbers(' '.join(poscar[5].split())):
             vasp5 = False
         # Set direct, test is done later
         direct = True
-- 
2.43.0


From 3b91f471b13033cb64ad9d4496b1dc79188e124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 18/44] fix: ignore any blank lines at the end of POSCAR

---
 parsevasp/poscar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index baf86eb..aeea08f 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -195,6 +195,9 @@ class Poscar(BaseParser):
 
         """
 
+        # Blank lines at the end of the file carry no information
+        while len(poscar) > 1 and not poscar[-1].strip():
+            poscar = poscar[:-1]
         comment = poscar[0].replace('#', '').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-- 
2.43.0


From 839bd733f995502e01ee1ac07cdd095844375aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 19/44] fix: read the spin channels of DOSCAR from their own
 columns

---
 parsevasp/doscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 04472c5..d3c5d9f 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -212,7 +212,7 @@ class Doscar(BaseParser):
             if num_spin == 1:
                 dos[name] = np.squeeze(dos_data[:, i + 1:i + 1 + num_spin], axis=1)
             else:
-                dos[name] = dos_data[:, i + 1:i + 1 + num_spin]
+                dos[name] = dos_data[:, i * num_spin + 1:(i + 1) * num_spin + 1]
 
         # Partial density of states
         pdos_items = []
@@ -237,7 +237,7 @@ class Doscar(BaseParser):
                 if num_spin == 1:  # Only squeeze if there is only one spin component
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
-                    pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+                    pdos[name] = pdos_data[:, :, i * num_spin + 1:(i + 1) * num_spin + 1]
 
         metadata = {}
         metadata['n_ions'] = num_ions
-- 
2.43.0


From 54e9c2fa13441aa256e60dea75bf2a486e48674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 20/44] fix: name the last d channel of a non-collinear
 lm-decomposed DOSCAR as in all other cases

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index d3c5d9f..deb1bfb 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -52,7 +52,7 @@ DTYPES_PDOS_NONCOLLINEAR = {
     37:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-              ('x2-y2', float, (4,))]),
+              ('dx2-y2', float, (4,))]),
     65:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-- 
2.43.0


From 63278b88ab4d48037495a6a208b7ac6d2189125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 21/44] fix: ignore additional blank lines before the first and
 after the last block of EIGENVAL

---
 parsevasp/eigenval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 79cfc4a..a327610 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -99,7 +99,7 @@ class Eigenval(BaseParser):
 
         # Datablocks
         data = re.split(utils.empty_line, data)
-        data = [[line.split() for line in block.splitlines()] for block in data]
+        data = [[line.split() for line in block.splitlines()] for block in data if block.strip()]
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
         # Iterate over blocks, pr. k-point
-- 
2.43.0


From 6b1a17627ff1d8bb42ae0e99da39918c8508804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 22/44] fix: use the positive cell volume also for left-handed
 lattices in CHGCAR

---
 parsevasp/chgcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 636b7ac..301c8cb 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -75,7 +75,7 @@ class Chgcar(BaseParser):
             # Calculate volume for later scaling
         volume = 1.0
         if volume:
-            volume = np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2]))
+            volume = abs(np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2])))
         # First line of content should now be NGXF, NGYF, NGZF
         temp = content.split('\n', 1)
         ngf_string = temp[0]
-- 
2.43.0


From 5eb7775ec12ca1e130825280b58a4b83d78ceb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 23/44] fix: use one name for the non-symmetrized elastic
 moduli

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index eca8c87..0ce440e 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -44,7 +44,7 @@ class Outcar(BaseParser):
 
         self._data = {
             'elastic_moduli': {
-                'non-symmetrized': None,
+                'non_symmetrized': None,
                 'symmetrized': None,
                 'total': None
             },
-- 
2.43.0


From fac1df3653e20f715648cade233c64d1bad75cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 24/44] fix: exit with the documented code when vasprun.xml is
 not found

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fd31bde..1eb3ce7 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3618,7 +3618,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # check if file exists
             if not utils.file_exists(self._file_path, logger=self._logger):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SIZE])
-                return None
+                sys.exit(self.ERROR_FILE_NOT_FOUND)
 
             # Size given in bytes, assuming it is a file and it sits in a filesystem
             file_size = os.stat(self._file_path).st_size
-- 
2.43.0


From 84557f969b1f459b4acb1a0f03240fc676ab33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 25/44] fix: do not report short vasprun.xml files, or those
 with blank lines at the end, as truncated

---
 parsevasp/vasprun.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 1eb3ce7..4bbf13d 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3643,24 +3643,23 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        last_line = ''
+        tail = b''
         xml_truncated = True
         # We here use seek to get the last kilobyte of the file and check that
         # it is truncated correctly. We can not use fileno as the file handler is not
         # always on a file system.
-        shift = self._file_size - 1024
-        if shift > 0:
-            if self._file_handler is not None:
-                self._file_handler.seek(shift)
-                last_line = self._file_handler.readlines()[-1]
-                # Reset pointer
-                self._file_handler.seek(0)
-            else:
-                with open(self._file_path, 'rb') as file_handler:
-                    file_handler.seek(shift)
-                    last_line = file_handler.readlines()[-1]
-            if b'</modeling>' in last_line:
-                # The XML file is not truncated.
-                xml_truncated = False
+        shift = max(self._file_size - 1024, 0)
+        if self._file_handler is not None:
+            self._file_handler.seek(shift)
+            tail = self._file_handler.read()
+            # Reset pointer
+            self._file_handler.seek(0)
+        else:
+            with open(self._file_path, 'rb') as file_handler:
+                file_handler.seek(shift)
+                tail = file_handler.read()
+        if tail.rstrip().endswith(b'</modeling>'):
+            # The XML file is not truncated.
+            xml_truncated = False
 
         self._xml_truncated = xml_truncated
-- 
2.43.0


From 7fd0bac1994e2e92b094c503fcfc82d4b286dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 26/44] fix: return the last positions and forces also for two
 ionic steps of few atoms

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 4bbf13d..cc9f704 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1550,7 +1550,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if entrypos is not None:
                 num_entrypos = len(entrypos)
                 pos[1] = self._convert_array2D_f(entrypos[0:num_atoms], 3)
-                if num_entrypos > 3:
+                if num_entrypos > num_atoms:
                     pos[2] = self._convert_array2D_f(entrypos[-num_atoms:], 3)
                 else:
                     pos[2] = None
@@ -1561,7 +1561,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if entryforce is not None:
                 num_entryforce = len(entryforce)
                 force[1] = self._convert_array2D_f(entryforce[0:num_atoms], 3)
-                if num_entryforce > 3:
+                if num_entryforce > num_atoms:
                     force[2] = self._convert_array2D_f(entryforce[-num_atoms:], 3)
                 else:
                     force[2] = None
-- 
2.43.0


From b514e73114fba0e393e8f1eebfac68e8f03c20ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 27/44] fix: return None for the Born charges when there are no
 species

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index cc9f704..cf4c053 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1432,7 +1432,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None, None, None
+                return None
         num_atoms = species.shape[0]
 
         born = self._convert_array2D_f(entry, 3)
-- 
2.43.0


From 6e4997d5071874269e6c9a7a98f5e8dd202db051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 28/44] fix: exit on overflow anywhere in a row of vasprun.xml,
 instead of returning zeros

---
 parsevasp/vasprun.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index cf4c053..2f4c804 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2646,6 +2646,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
+            self._check_overflow(entry)
             try:
                 data = np.fromstring(entry.text, sep=' ', dtype='intc')
             except ValueError as err:
@@ -2675,6 +2676,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
+            self._check_overflow(entry)
             try:
                 data = np.fromstring(entry.text, sep=' ', dtype='double')
             except ValueError as err:
@@ -2706,6 +2708,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='intc')
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
@@ -2738,6 +2741,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='double')
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
@@ -2773,6 +2777,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
@@ -2782,6 +2787,21 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return data
 
+    def _check_overflow(self, entry):
+        """
+        Exit if a number of the entry did not fit in its field and was replaced by asterisks.
+
+        Parameters
+        ----------
+        entry : object
+            An Element object containing the numbers.
+
+        """
+
+        if entry.text is not None and '*' in entry.text:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
+            sys.exit(self.ERROR_OVERFLOW)
+
     def _convert_f(self, entry):
         """
         Convert the input entry to a float.
-- 
2.43.0


From f794650ffcc68f18f4cf92b12e899b22a7be9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 29/44] fix: take the number of orbital columns in vasprun.xml
 from the file instead of assuming nine

---
 parsevasp/vasprun.py | 62 ++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 2f4c804..0d15335 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -483,16 +483,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, self._num_columns(data))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2, self._num_columns(data2))
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, self._num_columns(data))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos:
@@ -553,16 +553,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, self._num_columns(data))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2, self._num_columns(data2))
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, self._num_columns(data))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos_specific:
@@ -2161,9 +2161,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosup['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, self._num_columns(entry_partial_ispin1))
                 # do not need the energy term (similar to total)
-                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosup['partial'] = None
             dos['up'] = _dosup
@@ -2171,9 +2171,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosdown['total'] = dos_ispin[:, 1]
             _dosdown['integrated'] = dos_ispin[:, 2]
             if entry_partial_ispin2:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, self._num_columns(entry_partial_ispin2))
                 # do not need the energy term (similar to total)
-                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosdown['partial'] = None
             dos['down'] = _dosdown
@@ -2188,9 +2188,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dos['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, self._num_columns(entry_partial_ispin1))
                 # do not need the energy term (similar to total)
-                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dos['partial'] = None
             _dos['fermi_level'] = fermi_level
@@ -2598,14 +2598,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if len(spin1) != num_bands * num_kpoints * num_atoms:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-        pdata.append(self._convert_array2D_f(spin1, 9))
+        pdata.append(self._convert_array2D_f(spin1, self._num_columns(spin1)))
         pdata[0] = np.asarray(np.split(pdata[0], num_kpoints))
         pdata[0] = np.asarray(np.split(pdata[0], num_bands, axis=1))
         if spin2 is not None:
             if len(spin2) != num_bands * num_kpoints * num_atoms:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
                 sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-            pdata.append(self._convert_array2D_f(spin2, 9))
+            pdata.append(self._convert_array2D_f(spin2, self._num_columns(spin2)))
             pdata[1] = np.asarray(np.split(pdata[1], num_kpoints))
             pdata[1] = np.asarray(np.split(pdata[1], num_bands, axis=1))
 
@@ -2787,6 +2787,28 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return data
 
+    @staticmethod
+    def _num_columns(entry):
+        """
+        Return the number of columns of the first row, which depends on LORBIT and the orbitals present.
+
+        Parameters
+        ----------
+        entry : list
+            A list containing Element objects where each element is a row.
+
+        Returns
+        -------
+        num_columns : int
+            The number of columns.
+
+        """
+
+        if not entry:
+            return 0
+
+        return len(entry[0].text.split())
+
     def _check_overflow(self, entry):
         """
         Exit if a number of the entry did not fit in its field and was replaced by asterisks.
-- 
2.43.0


From c44ce46bdef531f774dbb63d16d981a476418435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 30/44] fix: read the scalars of vasprun.xml in event mode when
 their element is complete

---
 parsevasp/vasprun.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 0d15335..27906ef 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -395,54 +395,54 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # Now fetch the data
             if extract_generator:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib['name'] == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib['name'] == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib['name'] == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib['name'] == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib['name'] == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib['name'] == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib['name'] == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -772,17 +772,17 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
                 if extract_energies:
                     # Extrapolated energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
-                        totens[calc].update({'energy_extrapolated_final': float(element.text)})
+                        totens[calc].update({'energy_extrapolated_final': self._convert_f(element)})
                     # Free energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
-                        totens[calc].update({'energy_free_final': float(element.text)})
+                        totens[calc].update({'energy_free_final': self._convert_f(element)})
                     # Energy without entropy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
-                        totens[calc].update({'energy_no_entropy_final': float(element.text)})
+                        totens[calc].update({'energy_no_entropy_final': self._convert_f(element)})
 
                 if extract_eigenvalues:
                     if event == 'start' and element.tag == 'set' \
@@ -966,7 +966,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         if event == 'start' and element.tag == 'v':
                             data.append(element)
                     try:
-                        if event == 'start' and \
+                        if event == 'end' and \
                            element.attrib['name'] == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
@@ -982,7 +982,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
             if extract_kpointdata:
                 try:
-                    if event == 'start' and element.tag == 'v' and \
+                    if event == 'end' and element.tag == 'v' and \
                        element.attrib['name'] == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
-- 
2.43.0


From d02abfb3fd82a7aa154703ac36057dca79e9ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 31/44] fix: keep the regular and the interpolated density of
 states of vasprun.xml apart

---
 parsevasp/vasprun.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 27906ef..86c07da 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -519,6 +519,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     data = []
                     data2 = []
                     data6 = []
+                    dos = {}
                     _dos = {}
                     _dos2 = {}
                     extract_dos = False
@@ -589,6 +590,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     data = []
                     data2 = []
                     data6 = []
+                    dos = {}
                     _dos = {}
                     _dos2 = {}
                     extract_dos_specific = False
@@ -2041,8 +2043,18 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        # The density of states on the specific k-point grid is marked as interpolated and should
+        # not be mixed with the regular one
+        xml_dos = None
+        for entry in self._findall(xml, './/calculation/dos') or []:
+            if entry.attrib.get('comment') is None:
+                xml_dos = entry
+        if xml_dos is None:
+            # Nothing will be found in here
+            xml_dos = etree.Element('dos')
+
         # Fetch the Fermi level
-        entry = self._find(xml, './/calculation/dos/i[@name="efermi"]')
+        entry = self._find(xml_dos, './i[@name="efermi"]')
 
         if entry is not None:
             fermi_level = self._convert_f(entry)
@@ -2050,20 +2062,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 1"]/r')
+        entry_total_ispin1 = self._findall(xml_dos, './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 2"]/r')
+        entry_total_ispin2 = self._findall(xml_dos, './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 1"]/r')
+        entry_partial_ispin1 = self._findall(xml_dos, './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 2"]/r')
-
-        # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return None, None
+        entry_partial_ispin2 = self._findall(xml_dos, './partial/array/set/set/set[@comment="spin 2"]/r')
 
         num_atoms = 0
         species = self._lattice['species']
@@ -2075,9 +2083,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 return None, None
         num_atoms = species.shape[0]
 
-        dos = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-        )
+        dos = None
+        if entry_total_ispin1 is not None:
+            dos = self._extract_dos(
+                entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level,
+                num_atoms
+            )
 
         # Now extract the density of states for specific k-point grids
         # fetch the Fermi level again as this can be different
-- 
2.43.0


From 418257f0d578bd2d77c61605a1461c3803a4d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 32/44] fix: extract the dielectric tensors of vasprun.xml also
 in event mode

---
 parsevasp/vasprun.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 86c07da..ea64c72 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -285,6 +285,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         dos = {}
         totens = {}
         dynmat = {}
+        dielectrics = {'energy': None, 'imag': None, 'real': None, 'epsilon': None, 'epsilon_ion': None}
         _dos = {}
         _dos2 = {}
 
@@ -328,6 +329,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         extract_e_wo_entrp = False
         extract_scstep = False
         extract_dielectrics = False
+        extract_epsilon = False
         extract_eig_proj = False
         extract_eig_proj_ispin1 = False
         extract_eig_proj_ispin2 = False
@@ -669,14 +671,20 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dielectricfunction':
                     extract_dielectrics = True
                 if event == 'end' and element.tag == 'dielectricfunction':
-                    _diel = {}
                     diel = np.split(self._convert_array2D_f(data, 7), 2)
-                    _diel['energy'] = diel[0][:, 0]
-                    _diel['imag'] = diel[0][:, 1:7]
-                    _diel['real'] = diel[1][:, 1:7]
-                    self._data['dielectrics'] = _diel
+                    dielectrics['energy'] = diel[0][:, 0]
+                    dielectrics['imag'] = diel[0][:, 1:7]
+                    dielectrics['real'] = diel[1][:, 1:7]
                     data = []
                     extract_dielectrics = False
+                if event == 'start' and element.tag == 'varray' and \
+                   element.attrib.get('name') in ('epsilon', 'epsilon_ion'):
+                    extract_epsilon = True
+                if event == 'end' and element.tag == 'varray' and \
+                   element.attrib.get('name') in ('epsilon', 'epsilon_ion'):
+                    dielectrics[element.attrib['name']] = self._convert_array2D_f(data, 3)
+                    data = []
+                    extract_epsilon = False
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
@@ -974,6 +982,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     except KeyError:
                         pass
 
+                if extract_epsilon:
+                    if event == 'start' and element.tag == 'v':
+                        data.append(element)
+
                 if extract_born:
                     if event == 'start' and element.tag == 'v':
                         data.append(element)
@@ -1093,6 +1105,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._data['forces'] = force
         self._data['stress'] = stress
         self._data['totens'] = totens
+        if any(value is not None for value in dielectrics.values()):
+            self._data['dielectrics'] = dielectrics
 
     def _fetch_versionw(self, xml):
         """
-- 
2.43.0


From 08e61435ba980c1be280449509b898534ef6d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 33/44] fix: match the POSCAR entry names exactly

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index aeea08f..b68bcfa 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -457,7 +457,7 @@ class Poscar(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('unitcell' in entry) or ('sites' in entry)):
+        if entry not in ('comment', 'unitcell', 'sites'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_ENTRY])
             sys.exit(self.ERROR_INVALID_ENTRY)
 
-- 
2.43.0


From de15999442d5310f0a23c20d7fcbdfdf4143ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 34/44] fix: exit with the documented code when a KPOINTS entry
 is missing

---
 parsevasp/kpoints.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 4a843e9..89d7c20 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -393,8 +393,7 @@ class Kpoints(BaseParser):
 
         # Check that at least divisions or points are set
         # to something else than None
-        if ((self.entries['divisions'] is None) and (self.entries['points'] is None) and
-            (self.entries['generating_vectors'] is None)):
+        if all(self.entries.get(key) is None for key in ('divisions', 'points', 'generating_vectors')):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
             sys.exit(self.ERROR_DIVISIONS)
 
-- 
2.43.0


From 1bef6d8a2fea6d86e98e2b09cc463184e562c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 35/44] fix: exit with the documented code when the sites of a
 POSCAR are missing or not a list

---
 parsevasp/poscar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index b68bcfa..4d9f2e4 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -144,7 +144,11 @@ class Poscar(BaseParser):
 
         """
 
-        sites = self._poscar_dict['sites']
+        sites = self._poscar_dict.get('sites')
+        if not isinstance(sites, list):
+            # Reported by the validation
+            return
+
         for index, site in enumerate(sites):
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
-- 
2.43.0


From ce263e9667f1c4bade6796771067a720ed1172ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 36/44] fix: leave an existing file as it is when a write is
 not supported or fails

---
 parsevasp/base.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 249ca50..07e7c27 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -1,5 +1,6 @@
 """Base class to handle VASP files."""
 # pylint: disable=consider-using-with
+import io
 import logging
 import os
 import sys
@@ -86,17 +87,19 @@ class BaseParser(ABC):  # pylint: disable=R0903
 
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
-        if file_path:
-            # Open file
-            file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
-
-        # Do the write for each specific content parser _write function using handler, also
-        # bring any extra arguments.
-        self._write(file_handler, **kwargs)
-
-        if file_path:
-            # Close file
-            open_close_file_handler(file_handler=file_handler, logger=self._logger)
+        if not file_path:
+            # Do the write for each specific content parser _write function using handler, also
+            # bring any extra arguments.
+            self._write(file_handler, **kwargs)
+            return
+
+        # Compose the content before the file is opened, so that a write which is not supported or
+        # fails leaves an existing file as it is.
+        content = io.StringIO()
+        self._write(content, **kwargs)
+        file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
+        file_handler.write(content.getvalue())
+        open_close_file_handler(file_handler=file_handler, logger=self._logger)
 
     def _check_file(self, file_path=None):
         """
-- 
2.43.0


From 9454ea91d42f6bc2e2bf20db2935be6090677458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 37/44] fix: refuse to write a POTCAR, instead of emptying the
 file

---
 parsevasp/potcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2362ea6..2cd29cb 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -208,5 +208,6 @@ class Potcar(BaseParser):
         except Exception as exc:
             raise AttributeError(attribute) from exc
 
-    def _write(self, file_handler, **kwargs):
-        pass
+    def _write(self, *args, **kwargs):
+        """Write not supported for POTCAR."""
+        raise NotImplementedError('Writing POTCAR files is not supported.')
-- 
2.43.0


From f1480a93ffd5a17fd1baeabebbafeefcec41e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 38/44] fix: recognise POTCAR keywords which follow a ; without
 a blank

---
 parsevasp/potcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2cd29cb..b983fa8 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -137,7 +137,7 @@ class Potcar(BaseParser):
         ).group(1)
 
         self.metadata = {}
-        for key, val in re.findall(r'(\S+)\s*=\s*(.*?)(?=;|$)', search_lines, flags=re.MULTILINE):
+        for key, val in re.findall(r'([^\s;]+)\s*=\s*(.*?)(?=;|$)', search_lines, flags=re.MULTILINE):
             if key in _parameters_to_parse:
                 self.metadata[key] = _parameters_to_parse[key](val)
 
-- 
2.43.0


From 11c54a30a49f7f794a30f37bb812acd627dff0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 39/44] fix: accept signed exponents in POTCAR, which crashed
 the reader

---
 parsevasp/potcar.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index b983fa8..a37c0e9 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -113,21 +113,21 @@ class Potcar(BaseParser):
             'IUNSCR': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'NDATA': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'ICORE': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
+            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
             'STEP': lambda val: [float(y) for y in re.split(r'\s+', val.strip()) if not y.isalpha()],
         }
         search_lines = re.search(
-- 
2.43.0


From 36e272b8b6c31c2c78dbf4ab8ce96b57972c5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 40/44] fix: detect short overflowed fields among the scalars
 of vasprun.xml

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index ea64c72..6356123 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2867,7 +2867,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry.text is not None:
-            if '****' in entry.text:
+            if '*' in entry.text:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                 sys.exit(self.ERROR_OVERFLOW)
             data = float(entry.text)
@@ -2892,7 +2892,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry.text is not None:
-            if '****' in entry.text:
+            if '*' in entry.text:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                 sys.exit(self.ERROR_OVERFLOW)
             data = int(entry.text)
-- 
2.43.0


From cbd1b2309da6048fe1c02dc7fe9bdb374983d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 41/44] fix: do not take the eigenvalues of the projections for
 the eigenvalues in event mode

---
 parsevasp/vasprun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 6356123..f6322cc 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -627,7 +627,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     extract_scstep = False
                 if (
                     event == 'start' and element.tag == 'eigenvalues' and not extract_eigenvelocities and
-                    element.attrib.get('comment') != 'interpolated' and not extract_eigenvalues_specific
+                    element.attrib.get('comment') != 'interpolated' and not extract_eigenvalues_specific and
+                    not extract_projected
                 ):
                     extract_eigenvalues = True
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues:
-- 
2.43.0


From 842eac36165ed9b2af920471ce667b596843e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 42/44] fix: report the number of primitive cells that build up
 the supercell

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 0ce440e..cac1a7c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -161,7 +161,7 @@ class Outcar(BaseParser):
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
-                    text = f'{line.strip().split()} primitive cells'
+                    text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
-- 
2.43.0


From 09d9aebbbd8c47ea4ddd9814331dd0837fc27ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:00 +0000
Subject: [PATCH 43/44] fix: get_epsilon and get_epsilon_ion crashed in event
 mode when the file has no dielectric data

---
 parsevasp/vasprun.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index f6322cc..6a331df 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3040,7 +3040,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
     def get_epsilon(self):
         """
         Return the """
-        epsilon = self._data['dielectrics']['epsilon']
+        dielectrics = self._data['dielectrics']
+        if dielectrics is None:
+            return None
+        epsilon = dielectrics['epsilon']
         return epsilon
 
     def get_epsilon_ion(self):
@@ -3055,7 +3058,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        epsilon_ion = self._data['dielectrics']['epsilon_ion']
+        dielectrics = self._data['dielectrics']
+        if dielectrics is None:
+            return None
+        epsilon_ion = dielectrics['epsilon_ion']
         return epsilon_ion
 
     def get_fermi_level(self):
-- 
2.43.0


From 6a53fae34ae812b8f73461c44f3322c84bc32796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:14 +0000
Subject: [PATCH 44/44] fix: keep an existing file when the text to be written
 can not be encoded

---
 parsevasp/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 07e7c27..7f0a9ad 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -97,8 +97,11 @@ class BaseParser(ABC):  # pylint: disable=R0903
         # fails leaves an existing file as it is.
         content = io.StringIO()
         self._write(content, **kwargs)
+        content = content.getvalue()
+        # A content which can not be encoded has to fail before the file is opened, too
+        content.encode('utf8')
         file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
-        file_handler.write(content.getvalue())
+        file_handler.write(content)
         open_close_file_handler(file_handler=file_handler, logger=self._logger)
 
     def _check_file(self, file_path=None):
-- 
2.43.0

