From 87b1e4b580e66c7034d021f9d08f68a808483a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 01/50] fix: render the complete content before write() opens
 its target and always close it

---
 parsevasp/base.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 249ca50..cbb67e7 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -4,6 +4,7 @@ import logging
 import os
 import sys
 from abc import ABC, abstractmethod
+from io import StringIO
 
 
 class BaseParser(ABC):  # pylint: disable=R0903
@@ -86,15 +87,23 @@ class BaseParser(ABC):  # pylint: disable=R0903
 
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
-        if file_path:
-            # Open file
-            file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
 
         # Do the write for each specific content parser _write function using handler, also
         # bring any extra arguments.
-        self._write(file_handler, **kwargs)
+        if not file_path:
+            self._write(file_handler, **kwargs)
+            return
 
-        if file_path:
+        # Render the complete content before the file is opened, such that a rejected write does
+        # not truncate an existing file.
+        content = StringIO()
+        self._write(content, **kwargs)
+
+        # Open file
+        file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
+        try:
+            file_handler.write(content.getvalue())
+        finally:
             # Close file
             open_close_file_handler(file_handler=file_handler, logger=self._logger)
 
-- 
2.43.0


From e2bd99826180fa49e00b0e8d905a6c6887aac9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 02/50] fix: close the file opened by read_from_file when
 reading it fails

---
 parsevasp/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8d06eb0..ea6c3a6 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -52,12 +52,14 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
         file_data = inputfile.readlines()
     else:
         inputfile = open_close_file_handler(file_name=file_name, status='r', encoding=encoding, logger=logger)
-        if not lines:
-            # Only want a string of file content, return.
-            file_data = inputfile.read()
-        else:
-            file_data = inputfile.readlines()
-        open_close_file_handler(logger, file_handler=inputfile, logger=logger)
+        try:
+            if not lines:
+                # Only want a string of file content, return.
+                file_data = inputfile.read()
+            else:
+                file_data = inputfile.readlines()
+        finally:
+            open_close_file_handler(logger, file_handler=inputfile, logger=logger)
         if not lines:
             return file_data
 
-- 
2.43.0


From 6607f790407b757eedccdf87987743591e47ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 03/50] fix: pass the parser logger on when reading files

---
 parsevasp/chgcar.py   | 2 +-
 parsevasp/doscar.py   | 2 +-
 parsevasp/eigenval.py | 2 +-
 parsevasp/incar.py    | 2 +-
 parsevasp/kpoints.py  | 2 +-
 parsevasp/outcar.py   | 2 +-
 parsevasp/poscar.py   | 2 +-
 parsevasp/potcar.py   | 4 +++-
 parsevasp/stream.py   | 2 +-
 9 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 636b7ac..ec705a2 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -60,7 +60,7 @@ class Chgcar(BaseParser):
         This method is presently not optimized to use as little memory as possible.
 
         """
-        content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
+        content = utils.read_from_file(self._file_path, self._file_handler, lines=False, logger=self._logger)
         # Extract header
         temp = content.split('\n\n', 1)
         header = temp[0]
diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 04472c5..f08eae9 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -155,7 +155,7 @@ class Doscar(BaseParser):
 
         """
 
-        doscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        doscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(doscar)
 
     def _from_list(self, doscar):
diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 79cfc4a..8022789 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -63,7 +63,7 @@ class Eigenval(BaseParser):
 
         """
 
-        eigenval = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        eigenval = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(eigenval)
 
     def _from_list(self, eigenval):
diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 4b64ffc..c6c1ec2 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -112,7 +112,7 @@ class Incar(BaseParser):
 
         """
 
-        incar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        incar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         return incar
 
     def _from_string(self):
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 26552a6..a468dce 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -132,7 +132,7 @@ class Kpoints(BaseParser):
 
         """
 
-        kpoints = utils.read_from_file(self._file_path, self._file_handler)
+        kpoints = utils.read_from_file(self._file_path, self._file_handler, logger=self._logger)
         kpoints_dict = self._from_list(kpoints)
         return kpoints_dict
 
diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index eca8c87..38f1fc0 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -110,7 +110,7 @@ class Outcar(BaseParser):
         file and store them in the this instance's data dictionary.
         """
 
-        outcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        outcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(outcar)
 
     def _from_list(self, outcar):  # pylint: disable=R0915
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7e2fec3..f8aa1c6 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -125,7 +125,7 @@ class Poscar(BaseParser):
 
         """
 
-        poscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        poscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         poscar_dict = self._from_list(poscar)
         return poscar_dict
 
diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2362ea6..ba1a64a 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -86,7 +86,9 @@ class Potcar(BaseParser):
 
         """
 
-        potcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', lines=False)
+        potcar = utils.read_from_file(
+            self._file_path, self._file_handler, encoding='utf8', lines=False, logger=self._logger
+        )
 
         return self._generate_metadata(potcar)
 
diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index b4d3dd2..a0b3c4f 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -186,7 +186,7 @@ class Stream(BaseParser):  # pylint: disable=R0902
 
         """
 
-        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(stream)
 
     def _from_list(self, stream):
-- 
2.43.0


From 0bf917f2f308fa514d95185c102ee5a5b9e99f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 04/50] fix: refuse to write POTCAR files instead of producing
 an empty file

---
 parsevasp/potcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index ba1a64a..b2b51c9 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -210,5 +210,6 @@ class Potcar(BaseParser):
         except Exception as exc:
             raise AttributeError(attribute) from exc
 
-    def _write(self, file_handler, **kwargs):
-        pass
+    def _write(self, *args, **kwargs):
+        """Write not supported for POTCAR."""
+        raise NotImplementedError('Writing POTCAR files is not supported.')
-- 
2.43.0


From 147c896d539654f30800ac90a3dc9e0c122a23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 05/50] fix: look up the message of a missing POSCAR entry with
 its code

---
 parsevasp/poscar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index f8aa1c6..d069298 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -475,7 +475,7 @@ class Poscar(BaseParser):
             try:
                 unitcell = self.entries['unitcell']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'unitcell'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'unitcell'.")
                 sys.exit(self.ERROR_NO_KEY)
 
         if (not isinstance(unitcell, np.ndarray)) \
@@ -501,7 +501,7 @@ class Poscar(BaseParser):
             try:
                 comment = self.entries['comment']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if self.entries['comment'] is not None:
@@ -527,7 +527,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
@@ -548,7 +548,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
             for _site in sites:
                 if not isinstance(_site, Site):
-- 
2.43.0


From 950712efadd7315369bc0e71462101c7fd30a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 06/50] fix: reject every combination of more than one content
 source

---
 parsevasp/incar.py   | 5 +++--
 parsevasp/kpoints.py | 5 +++--
 parsevasp/poscar.py  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index c6c1ec2..56d1659 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -73,9 +73,10 @@ class Incar(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
+        from_file = self._file_path is not None or self._file_handler is not None
         if (self._incar_string is not None and self._incar_dict is not None) or (
-            self._incar_string is not None and self._file_path is not None
-        ) or (self._incar_dict is not None and self._file_path is not None) and self._file_handler is not None:
+            self._incar_string is not None and from_file
+        ) or (self._incar_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index a468dce..3ca2ddb 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -99,9 +99,10 @@ class Kpoints(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
+        from_file = self._file_path is not None or self._file_handler is not None
         if (self._kpoints_string is not None and self._kpoints_dict is not None) or (
-            self._kpoints_string is not None and self._file_path is not None
-        ) or (self._kpoints_dict is not None and self._file_path is not None and self._file_handler is not None):
+            self._kpoints_string is not None and from_file
+        ) or (self._kpoints_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index d069298..a828094 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -81,9 +81,10 @@ class Poscar(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
+        from_file = self._file_path is not None or self._file_handler is not None
         if (self._poscar_string is not None and self._poscar_dict is not None) or (
-            self._poscar_string is not None and self._file_path is not None
-        ) or (self._poscar_dict is not None and self._file_path is not None and self._file_handler is not None):
+            self._poscar_string is not None and from_file
+        ) or (self._poscar_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
-- 
2.43.0


From fd4264aaf95b5ad6e4a8b817484eac0b1a4d7e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 07/50] fix: return the comment of an INCAR entry when it is
 asked for

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 56d1659..0062935 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -366,7 +366,7 @@ class Incar(BaseParser):
         try:
             value = self.entries[tag].get_value()
             if comment:
-                com = self.entries[tag].get_value()
+                com = self.entries[tag].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From 69d4a4de996a4e56010de262c87b0b65211f9beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 08/50] fix: skip empty INCAR entries after a trailing
 semicolon

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 0062935..cba3055 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -163,7 +163,7 @@ class Incar(BaseParser):
                 # Now split on ; as we could have combined entries
                 splitted = splitted[0].split(';')
                 for ntry in splitted:
-                    if ntry == '\n':
+                    if not ntry.strip():
                         # Skip if the user used ; at the end of a line
                         continue
                     # Then split on = and analyze each entry
-- 
2.43.0


From 7cb7b35ee65978227d974e0b08da647f121a86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 09/50] fix: write bools inside INCAR lists as Fortran logicals

---
 parsevasp/incar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index cba3055..9d47bc3 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -267,8 +267,8 @@ class Incar(BaseParser):
         # [1.0, 2.0, 3.0] - list of floats
 
         if isinstance(value, list):
-            # List of values (we know all are either string, int or float)
-            string = ' '.join(map(str, value))
+            # List of values (we know all are either string, bool, int or float)
+            string = ' '.join(map(self._convert_value_to_string, value))
         else:
             if isinstance(value, bool):
                 if value:
-- 
2.43.0


From 04e7a8e2689ec1ff89cee247a3674187aac706ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 10/50] fix: keep the comments of SYSTEM, MAGMOM and M_CONSTR

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 9d47bc3..0ad3622 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -544,7 +544,7 @@ class IncarItem:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-                return clean_tag, clean_value, None
+                return clean_tag, clean_value, comment.strip() if comment is not None else None
 
             # Values is a string, so we have read an INCAR or the user
             # tries to assign an entry with just a string
-- 
2.43.0


From 3ca29b3ecd08bcd70243794b2a4cef8ff5ccffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 11/50] fix: do not take inf and nan in INCAR for integers

---
 parsevasp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index ea6c3a6..e20c476 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -166,7 +166,8 @@ def test_string_content(string):
         float(string)
         return 'int' if ((string.count('.') == 0) and \
                          ('e' not in string) and \
-                         ('E' not in string)) else 'float'
+                         ('E' not in string) and \
+                         ('n' not in string.lower())) else 'float'
     except ValueError:
         return 'string'
 
-- 
2.43.0


From fa62de3c24538ac31a5f115f7520e707b725fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 12/50] fix: return the entry from Poscar.get and Kpoints.get

---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 3ca2ddb..a209258 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -800,7 +800,7 @@ class Kpoints(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index a828094..6855496 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -756,7 +756,7 @@ class Poscar(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From f122360e47ec67bebc57b5e52e627ce07f42e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 13/50] fix: compare entry names of POSCAR and KPOINTS as a
 whole

---
 parsevasp/kpoints.py | 7 ++++---
 parsevasp/poscar.py  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index a209258..d487cd9 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -408,9 +408,10 @@ class Kpoints(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
-                ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry):
+        if entry not in (
+            'comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'generating_vectors', 'mode', 'num_kpoints',
+            'shifts', 'centering'
+        ):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 6855496..47ab6ea 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -455,7 +455,7 @@ class Poscar(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('unitcell' in entry) or ('sites' in entry)):
+        if entry not in ('comment', 'unitcell', 'sites'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_ENTRY])
             sys.exit(self.ERROR_INVALID_ENTRY)
 
-- 
2.43.0


From c67c2d35b3101602d468e9d4954f1989eddc7f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 14/50] fix: refuse negative site and point numbers

---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index d487cd9..e8cda9d 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -509,7 +509,7 @@ class Kpoints(BaseParser):
             )
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
         points = self.entries['points']
-        if point_number > (len(points) - 1):
+        if not 0 <= point_number < len(points):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_TOO_LARGE_POINT_INDEX])
             sys.exit(self.ERROR_TOO_LARGE_POINT_INDEX)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 47ab6ea..3cd25b0 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -583,7 +583,7 @@ class Poscar(BaseParser):
             )
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
         sites = self.entries['sites']
-        if site_number > (len(sites) - 1):
+        if not 0 <= site_number < len(sites):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_TOO_LARGE_SITE_INDEX])
             sys.exit(self.ERROR_TOO_LARGE_SITE_INDEX)
 
-- 
2.43.0


From ef1cc371dd183029cd35a7b6c7d3048162d2773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 15/50] fix: check the supplied comment and not the present one

---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index e8cda9d..58e11a0 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -433,7 +433,7 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 3cd25b0..6d71141 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -505,7 +505,7 @@ class Poscar(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
-- 
2.43.0


From 805d92ffce53e9277ca3d94dcbe78b9093b6476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 16/50] fix: keep the Site objects made of the sites of a
 POSCAR dictionary

---
 parsevasp/poscar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 6d71141..b5fee33 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -146,8 +146,8 @@ class Poscar(BaseParser):
 
         """
 
-        sites = self._poscar_dict['sites']
-        for site in sites:
+        sites = []
+        for site in self._poscar_dict['sites']:
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
@@ -171,6 +171,8 @@ class Poscar(BaseParser):
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                         site.set_velocities(velocities)
                     site.set_direct(True)
+            sites.append(site)
+        self._poscar_dict['sites'] = sites
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
-- 
2.43.0


From 4a7c5e6f3b5a429e5adffb85b9e45bfbf452fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 17/50] fix: convert POSCAR velocities according to their own
 header

---
 parsevasp/poscar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index b5fee33..7430d1d 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -287,9 +287,8 @@ class Poscar(BaseParser):
             first_char = poscar[loopmax_pos][0].lower()
             if first_char in ('d', 'c'):
                 velocities = True
-                if first_char == 'c':
-                    # Make sure we convert velocities to direct
-                    direct = False
+                # Make sure we convert velocities to direct
+                direct = first_char == 'd'
             elif poscar[loopmax_pos].replace(' ', '') == '\n':
                 predictor = True
         # Now check that the next line is in fact a coordinate
-- 
2.43.0


From 5e1168f6b78f67a686f85f44b8b404318c361b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 18/50] fix: skip species without sites in POSCAR

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7430d1d..9ccc7fb 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -249,7 +249,7 @@ class Poscar(BaseParser):
         # Loop positions
         for i in range(nions):
             # Fetch specie
-            if index > atoms[specie_slot]:
+            while index > atoms[specie_slot]:
                 specie_slot = specie_slot + 1
                 index = 1
             specie = spec[specie_slot]
-- 
2.43.0


From ae910fd3d10b0bd09e64c004b676f4dc87f9b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 19/50] fix: accept any number of blank lines at the end of
 POSCAR

---
 parsevasp/poscar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 9ccc7fb..07b111a 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -283,6 +283,9 @@ class Poscar(BaseParser):
             sites_temp.append([specie, position, flags, velo, pred])
         # Now check if there is more in the POSCAR
         loopmax_pos = nions + loopmax
+        # Blank lines at the end of the file carry no data
+        while len(poscar) > loopmax_pos and not poscar[-1].strip():
+            poscar = poscar[:-1]
         if len(poscar) > loopmax_pos:
             first_char = poscar[loopmax_pos][0].lower()
             if first_char in ('d', 'c'):
-- 
2.43.0


From 82d48356c7a9df62d676161268f7a133b64c59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 20/50] fix: detect VASP 4 POSCAR whose counts are separated by
 several blanks

---
 parsevasp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index e20c476..13955f8 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -191,8 +191,8 @@ def is_numbers(string, splitter=' '):
 
     """
 
-    entries = string.split(splitter)
-    is_nums = True
+    entries = [entry for entry in string.split(splitter) if entry.strip()]
+    is_nums = bool(entries)
     for entry in entries:
         if not is_number(entry):
             is_nums = False
-- 
2.43.0


From f4694972dde461da382079dccc22bae917769b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 21/50] fix: write the number of listed points to KPOINTS

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 58e11a0..be1ab9b 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -876,7 +876,7 @@ class Kpoints(BaseParser):
         # Check mode
         mode = entries['mode']
         if mode == 'explicit':
-            file_handler.write(f"{entries['num_kpoints']:6d}\n")
+            file_handler.write(f"{len(entries['points']):6d}\n")
             # Points should already be direct
             file_handler.write('Direct\n')
             for point in entries['points']:
-- 
2.43.0


From 0cf94cc16a474b349401eb17c0f204e5bac7ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 22/50] fix: skip blank lines in line mode KPOINTS strings

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index be1ab9b..f1a97f0 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -258,7 +258,7 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
-                if kpoints[true_index] != '\n':
+                if kpoints[true_index].strip():
                     entry = kpoints[true_index].split()[0:3]
                     coordinate = np.asarray([float(element) for element in entry])
                     point = Kpoint(coordinate, 1.0)
-- 
2.43.0


From 3fea16ce3fc5961c67ff4b93fba1e155ccf7b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 23/50] fix: accept a blank line after explicit KPOINTS

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index f1a97f0..f650531 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -210,7 +210,7 @@ class Kpoints(BaseParser):
                 points.append(Kpoint(point, weight, direct=direct))
             loopmax = num_kpoints + loopmax
             if len(kpoints) > loopmax:
-                if kpoints[loopmax].strip()[0].lower() == 't':
+                if kpoints[loopmax].strip()[:1].lower() == 't':
                     # Tetrahedron info present
                     tetra = []
                     loopmax = loopmax + 1
-- 
2.43.0


From 2956f926df9df97c163235a3e54f66665f7cd44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 24/50] fix: read the KPOINTS shifts when they are there

---
 parsevasp/kpoints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index f650531..86632d6 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -236,14 +236,15 @@ class Kpoints(BaseParser):
                 else:
                     centering = 'Monkhorst-Pack'
                 divisions = [int(element) for element in kpoints[3].split()]
-                if len(kpoints) == 5:
+                if len(kpoints) > 4 and kpoints[4].strip():
                     shifts = [float(element) for element in kpoints[4].split()]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
                 generating_vectors = []
                 for line_no in range(3, 6):
                     generating_vectors.append([float(element) for element in kpoints[line_no].split()])
-                shifts = [float(element) for element in kpoints[6].split()]
+                if len(kpoints) > 6 and kpoints[6].strip():
+                    shifts = [float(element) for element in kpoints[6].split()]
             elif third_line_char in ('d', 'c'):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_EXPERT])
                 sys.exit(self.ERROR_NO_EXPERT)
-- 
2.43.0


From b124fbbb512b472da506cb395416f8352a98d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 25/50] fix: leave the POSCAR dictionary of the caller as it is

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 07b111a..96178bf 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -172,7 +172,7 @@ class Poscar(BaseParser):
                         site.set_velocities(velocities)
                     site.set_direct(True)
             sites.append(site)
-        self._poscar_dict['sites'] = sites
+        self._poscar_dict = {**self._poscar_dict, 'sites': sites}
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
-- 
2.43.0


From 2572f7290ef8968121fb470511a4fcf102bae7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 26/50] fix: check the elements of 'sites' and 'points'

---
 parsevasp/kpoints.py | 3 +++
 parsevasp/poscar.py  | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 86632d6..34792ac 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -466,6 +466,9 @@ class Kpoints(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'points' should be a list."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            if not all(isinstance(point, Kpoint) for point in points):
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
+                sys.exit(self.ERROR_WRONG_OBJECT)
 
     def _check_point(self, point=None):
         """
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 96178bf..554f12b 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -537,6 +537,12 @@ class Poscar(BaseParser):
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        if not all(isinstance(site, Site) for site in sites):
+            self._logger.error(
+                f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                "The elements of the key 'sites' are not Site() objects."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
     def _check_site(self, site=None):
         """
-- 
2.43.0


From 5c7f6daa986b5379f440fa10a0014d74917fe0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 27/50] fix: refuse None and missing points in modify and
 delete

---
 parsevasp/kpoints.py | 10 ++++++++--
 parsevasp/poscar.py  |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 34792ac..1d0b4d3 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -319,11 +319,17 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_NOT_A_NUMBER)
             self.entries['points'][point_number] = value
         else:
+            if value is None and entry == 'num_kpoints':
+                # The check below falls back to the current value for None
+                self._logger.error(
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'num_kpoints' should be an integer."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
             if entry == 'points':
                 self._check_points(points=value)
                 # Check that all points are in direct, if not,
                 # convert
-                for point in value:
+                for point in value or []:
                     if not point.get_direct():
                         point = self._to_direct(point)
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
@@ -513,7 +519,7 @@ class Kpoints(BaseParser):
             )
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
         points = self.entries['points']
-        if not 0 <= point_number < len(points):
+        if points is None or not 0 <= point_number < len(points):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_TOO_LARGE_POINT_INDEX])
             sys.exit(self.ERROR_TOO_LARGE_POINT_INDEX)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 554f12b..e0d0935 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -395,6 +395,12 @@ class Poscar(BaseParser):
                 sys.exit(self.ERROR_SITE_NUMBER)
             self.entries['sites'][site_number] = value
         else:
+            if value is None and entry != 'comment':
+                # The checks below fall back to the current value for None
+                self._logger.error(
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The value of '{entry}' can not be None."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
             if entry == 'sites':
                 self._check_sites(sites=value)
             if entry == 'comment':
-- 
2.43.0


From b715da752395cb455a5e5989c425a7657af4a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 28/50] fix: keep the newline of the last point when line-mode
 points do not pair up

---
 parsevasp/kpoints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 1d0b4d3..3e3f7b1 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -975,7 +975,9 @@ class Kpoints(BaseParser):
                     file_handler.write('\n')
                     complete_set = 0
                 complete_set = complete_set + 1
-            utils.remove_newline(file_handler)
+            if entries['points'] and complete_set == 1:
+                # The blank line after the last pair
+                utils.remove_newline(file_handler)
 
 
 class Kpoint:
-- 
2.43.0


From ac9d6ae39cfcd74db4ab268c783f616c998f80d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 29/50] fix: take the last positions and forces of cells with
 few atoms from the last ionic step

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fd31bde..9105d1a 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1550,7 +1550,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if entrypos is not None:
                 num_entrypos = len(entrypos)
                 pos[1] = self._convert_array2D_f(entrypos[0:num_atoms], 3)
-                if num_entrypos > 3:
+                if num_entrypos > num_atoms:
                     pos[2] = self._convert_array2D_f(entrypos[-num_atoms:], 3)
                 else:
                     pos[2] = None
@@ -1561,7 +1561,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if entryforce is not None:
                 num_entryforce = len(entryforce)
                 force[1] = self._convert_array2D_f(entryforce[0:num_atoms], 3)
-                if num_entryforce > 3:
+                if num_entryforce > num_atoms:
                     force[2] = self._convert_array2D_f(entryforce[-num_atoms:], 3)
                 else:
                     force[2] = None
-- 
2.43.0


From 20feae34acae71ed1484202fe87847a5073b9fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 30/50] fix: return None for forces, stress, cells and
 positions that are absent in vasprun.xml

---
 parsevasp/vasprun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 9105d1a..db2a97b 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1610,6 +1610,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if len(stress) == 1 or stress[2] is None:
                 stress[2] = stress[1]
 
+        # Sections that are not present at all do not have any entries
+        cell, pos, force, stress = (
+            entries if any(entry is not None for entry in entries.values()) else None
+            for entries in (cell, pos, force, stress)
+        )
+
         return cell, pos, force, stress
 
     def _fetch_speciesw(self, xml):
-- 
2.43.0


From b5674c698f490c4685934f3360a8431929f1365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 31/50] fix: keep the interpolated density of states out of the
 regular one in vasprun.xml

---
 parsevasp/vasprun.py | 58 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index db2a97b..bae2f3c 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2048,28 +2048,24 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         """
 
         # Fetch the Fermi level
-        entry = self._find(xml, './/calculation/dos/i[@name="efermi"]')
+        entry = self._findall_regular_dos(xml, './i[@name="efermi"]')
 
         if entry is not None:
-            fermi_level = self._convert_f(entry)
+            fermi_level = self._convert_f(entry[0])
         else:
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 1"]/r')
+        entry_total_ispin1 = self._findall_regular_dos(xml, './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 2"]/r')
+        entry_total_ispin2 = self._findall_regular_dos(xml, './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 1"]/r')
+        entry_partial_ispin1 = self._findall_regular_dos(xml, './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 2"]/r')
-
-        # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return None, None
+        entry_partial_ispin2 = self._findall_regular_dos(xml, './partial/array/set/set/set[@comment="spin 2"]/r')
 
         num_atoms = 0
         species = self._lattice['species']
@@ -2081,9 +2077,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 return None, None
         num_atoms = species.shape[0]
 
-        dos = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-        )
+        # If no entries for spin 1, there is no regular density of states
+        dos = None
+        if entry_total_ispin1 is not None:
+            dos = self._extract_dos(
+                entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level,
+                num_atoms
+            )
 
         # Now extract the density of states for specific k-point grids
         # fetch the Fermi level again as this can be different
@@ -3608,6 +3608,38 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             return None
         return entry
 
+    def _findall_regular_dos(self, xml, locator):
+        """
+        Locate entries of the density of states on the regular k-point grid.
+
+        The density of states on a specific k-point grid is contained in the same calculation
+        and carries a comment, while the regular does not.
+
+        Parameters
+        ----------
+        xml : object
+            An ElementTree object to be used for parsing.
+        locator : string
+            The locator string to try, relative to the density of states.
+
+        Returns
+        -------
+        entry : object
+            A list of Element objects if something is found, otherwise it
+            returns None.
+
+        """
+
+        entry = []
+        for dos in xml.findall('.//calculation/dos'):
+            if dos.get('comment') is None:
+                entry.extend(dos.findall(locator))
+
+        if not entry:
+            return None
+
+        return entry
+
     def _set_file_size(self):
         """Returns the file size of a file.
 
-- 
2.43.0


From 35b86e6443baeb1b50b1d6bf04f2b6f798b87d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 32/50] fix: keep the density of states on specific k-points
 apart in the event driven parser

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index bae2f3c..ad49499 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -585,7 +585,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
-                    self._data['dos_specific'] = dos
+                    self._data['dos_specific'] = copy.deepcopy(dos)
                     data = []
                     data2 = []
                     data6 = []
-- 
2.43.0


From c7a67fd473876d24cc36ec1a900ff513cf55de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 33/50] fix: read the text of vasprun.xml elements in the event
 driven parser only when they are complete

---
 parsevasp/vasprun.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index ad49499..b268e44 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -395,54 +395,54 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # Now fetch the data
             if extract_generator:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib['name'] == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib['name'] == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib['name'] == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib['name'] == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib['name'] == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib['name'] == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib['name'] == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -772,15 +772,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
                 if extract_energies:
                     # Extrapolated energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
                         totens[calc].update({'energy_extrapolated_final': float(element.text)})
                     # Free energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
                         totens[calc].update({'energy_free_final': float(element.text)})
                     # Energy without entropy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
                         totens[calc].update({'energy_no_entropy_final': float(element.text)})
 
@@ -966,7 +966,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         if event == 'start' and element.tag == 'v':
                             data.append(element)
                     try:
-                        if event == 'start' and \
+                        if event == 'end' and \
                            element.attrib['name'] == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
@@ -982,7 +982,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
             if extract_kpointdata:
                 try:
-                    if event == 'start' and element.tag == 'v' and \
+                    if event == 'end' and element.tag == 'v' and \
                        element.attrib['name'] == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
-- 
2.43.0


From 18b89e06197e00b7e7278005d5f505f03d174b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 34/50] fix: read the static dielectric tensors in the event
 driven parser as well

---
 parsevasp/vasprun.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index b268e44..496d69b 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -285,6 +285,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         dos = {}
         totens = {}
         dynmat = {}
+        epsilon = {}
         _dos = {}
         _dos2 = {}
 
@@ -328,6 +329,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         extract_e_wo_entrp = False
         extract_scstep = False
         extract_dielectrics = False
+        extract_epsilon = False
         extract_eig_proj = False
         extract_eig_proj_ispin1 = False
         extract_eig_proj_ispin2 = False
@@ -675,6 +677,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     self._data['dielectrics'] = _diel
                     data = []
                     extract_dielectrics = False
+                if event == 'start' and element.tag == 'varray' and \
+                   element.attrib['name'] in ('epsilon', 'epsilon_ion'):
+                    extract_epsilon = True
+                if event == 'end' and element.tag == 'varray' and \
+                   element.attrib['name'] in ('epsilon', 'epsilon_ion'):
+                    epsilon[element.attrib['name']] = self._convert_array2D_f(data, 3)
+                    data = []
+                    extract_epsilon = False
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
@@ -892,6 +902,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     if event == 'start' and element.tag == 'r':
                         data.append(element)
 
+                if extract_epsilon:
+                    if event == 'start' and element.tag == 'v':
+                        data.append(element)
+
                 if extract_projected:
                     # Make sure we skip the first entry containing
                     # the eigenvalues (already stored at this point)
@@ -1057,6 +1071,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     if event == 'start' and element.tag == 'r':
                         data2.append(element)
 
+        # The static dielectric tensors are stored together with the dielectric functions
+        if epsilon or self._data['dielectrics'] is not None:
+            dielectrics = {'imag': None, 'energy': None, 'real': None, 'epsilon': None, 'epsilon_ion': None}
+            dielectrics.update(self._data['dielectrics'] or {})
+            dielectrics.update(epsilon)
+            self._data['dielectrics'] = dielectrics
+
         # If any dict is empty, set to zero
         if not cell:
             cell = None
-- 
2.43.0


From 52586cb1168e398639c775ad717928da3ba8df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 35/50] fix: return None from the accessors of absent
 vasprun.xml sections

---
 parsevasp/vasprun.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 496d69b..b43b36f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2330,6 +2330,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             else:
                 diel['epsilon_ion'] = None
 
+            # Nothing at all is available
+            if all(value is None for value in diel.values()):
+                return None
+
             return diel
 
         # if method == "qp":
@@ -2999,7 +3003,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
     def get_epsilon(self):
         """
         Return the """
-        epsilon = self._data['dielectrics']['epsilon']
+        dielectrics = self._data['dielectrics']
+        if dielectrics is None:
+            return None
+
+        epsilon = dielectrics['epsilon']
         return epsilon
 
     def get_epsilon_ion(self):
@@ -3014,7 +3022,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        epsilon_ion = self._data['dielectrics']['epsilon_ion']
+        dielectrics = self._data['dielectrics']
+        if dielectrics is None:
+            return None
+
+        epsilon_ion = dielectrics['epsilon_ion']
         return epsilon_ion
 
     def get_fermi_level(self):
@@ -3028,7 +3040,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        fermi_level = self._data['dos']['total']['fermi_level']
+        dos = self._data['dos']
+        if dos is None:
+            return None
+
+        fermi_level = dos['total']['fermi_level']
         return fermi_level
 
     def get_fermi_level_specific(self):
@@ -3043,7 +3059,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        fermi_level_specific = self._data['dos_specific']['total']['fermi_level']
+        dos_specific = self._data['dos_specific']
+        if dos_specific is None:
+            return None
+
+        fermi_level_specific = dos_specific['total']['fermi_level']
         return fermi_level_specific
 
     def get_born(self):
@@ -3561,6 +3581,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         import re
 
+        if self._version is None:
+            return None
+
         version = self._version.strip()
         # The version entry in the xml file is typically of the form
         # X.Y.Z or X.Y.Z.something so only keep three integers and two dots
-- 
2.43.0


From 6399409c76f13a0d7c3a6ffd8f6bf6021dc26501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 36/50] fix: report missing k-points of the eigenvalues in
 vasprun.xml instead of a TypeError

---
 parsevasp/vasprun.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index b43b36f..fa3546f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -629,6 +629,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 ):
                     extract_eigenvalues = True
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues:
+                    if self._lattice['kpoints'] is None:
+                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+                        sys.exit(self.ERROR_NO_KPOINTS)
                     num_kpoints = len(self._lattice['kpoints'])
                     if not data2:
                         eigenvalues, occupancies = self._extract_eigenvalues(data, None, num_kpoints)
@@ -1857,6 +1860,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None, None
 
+        # Check that we have extracted the kpoints
+        if self._lattice['kpoints'] is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+            sys.exit(self.ERROR_NO_KPOINTS)
+
         eigenvalues, occupancies = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._lattice['kpoints']))
 
         return eigenvalues, occupancies
-- 
2.43.0


From 0226eb4d84bb27a2a7968caf57fd16393e4b33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 37/50] fix: report missing species of born charges and
 projectors as such

---
 parsevasp/vasprun.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fa3546f..831c300 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1456,7 +1456,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None, None, None
+                return None
         num_atoms = species.shape[0]
 
         born = self._convert_array2D_f(entry, 3)
@@ -2616,8 +2616,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         num_atoms = 0
         # Also need the number of atoms if the projected values are supplied
         if self._lattice['species'] is None:
-            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_NBANDS])
-            sys.exit(self.ERROR_NO_NBANDS)
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
+            sys.exit(self.ERROR_NO_SPECIES)
         else:
             num_atoms = self._lattice['species'].shape[0]
 
-- 
2.43.0


From d7a6276767acd4b960eac8eed26ba927d8932790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 38/50] fix: recognise intact vasprun.xml files of a kilobyte
 or less as not truncated

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 831c300..14e8f47 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3738,8 +3738,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # We here use seek to get the last kilobyte of the file and check that
         # it is truncated correctly. We can not use fileno as the file handler is not
         # always on a file system.
-        shift = self._file_size - 1024
-        if shift > 0:
+        shift = max(self._file_size - 1024, 0)
+        if self._file_size > 0:
             if self._file_handler is not None:
                 self._file_handler.seek(shift)
                 last_line = self._file_handler.readlines()[-1]
-- 
2.43.0


From 38b3eb9166983b077a4b5aa8efa0d88b92d83e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 39/50] fix: report missing k-points of specific eigenvalues
 and eigenvelocities instead of a TypeError

---
 parsevasp/vasprun.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 14e8f47..ec65d06 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -648,6 +648,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     extract_eigenvalues_specific = True
 
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues_specific:
+                    if self._data['kpoints'] is None:
+                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+                        sys.exit(self.ERROR_NO_KPOINTS)
                     num_kpoints = len(self._data['kpoints'])
                     if not data2:
                         eigenvalues_specific, _ = self._extract_eigenvalues(data, None, num_kpoints)
@@ -660,6 +663,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'eigenvelocities':
                     extract_eigenvelocities = True
                 if event == 'end' and element.tag == 'eigenvelocities':
+                    if self._data['kpoints'] is None:
+                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+                        sys.exit(self.ERROR_NO_KPOINTS)
                     num_kpoints = len(self._data['kpoints'])
                     if not data2:
                         eigenvelocities = self._extract_eigenvelocities(data, None, num_kpoints)
@@ -1915,6 +1921,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None
 
+        # Check that we have extracted the specific kpoints
+        if self._data['kpoints'] is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+            sys.exit(self.ERROR_NO_KPOINTS)
+
         eigenvalues, _ = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
 
         return eigenvalues
@@ -1968,6 +1979,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             'kpoints/varray[@name="weights"]/v'
         )
 
+        # Check that we have extracted the specific kpoints
+        if self._data['kpoints'] is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+            sys.exit(self.ERROR_NO_KPOINTS)
+
         eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
 
         return eigenvelocities
-- 
2.43.0


From e2ce03fd68e6868a270c339166afefd9aba14b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 40/50] fix: only keep total energies that are present for all
 steps in the event driven parser

---
 parsevasp/vasprun.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index ec65d06..d683136 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1097,22 +1097,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if not stress:
             stress = None
 
-        # Check totens for entries, if all arrays empty and no float detected set force totens to None
-        found_totens = False
+        # Only keep the total energies if all supported energies are present, both for the electronic
+        # steps and after these, for each calculation
         for energies in totens.values():
-            for value in energies.values():
-                try:
-                    if value.size != 0:
-                        # Fails if there is a float for value and if there is a float, there is a value, so
-                        # protected by try block, or we have entries for the array values.
-                        found_totens = True
-                        break
-                except AttributeError:
-                    found_totens = True
-            if found_totens:
+            if any(
+                energies[energy].size == 0 or energy + '_final' not in energies for energy in _SUPPORTED_TOTAL_ENERGIES
+            ):
+                totens = None
                 break
-
-        if not found_totens:
+        if not totens:
             totens = None
 
         # Store
-- 
2.43.0


From aaedae11cc9ecd49ff6040a21b9c961be4b57893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 41/50] fix: do not replace malformed numbers in vasprun.xml
 silently

---
 parsevasp/vasprun.py | 56 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index d683136..de731f5 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -793,15 +793,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     # Extrapolated energy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
-                        totens[calc].update({'energy_extrapolated_final': float(element.text)})
+                        totens[calc].update({'energy_extrapolated_final': self._convert_f(element)})
                     # Free energy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
-                        totens[calc].update({'energy_free_final': float(element.text)})
+                        totens[calc].update({'energy_free_final': self._convert_f(element)})
                     # Energy without entropy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
-                        totens[calc].update({'energy_no_entropy_final': float(element.text)})
+                        totens[calc].update({'energy_no_entropy_final': self._convert_f(element)})
 
                 if extract_eigenvalues:
                     if event == 'start' and element.tag == 'set' \
@@ -2674,6 +2674,31 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return projectors
 
+    def _convert_text(self, text, dtype='double'):
+        """
+        Convert the text of an element to a numpy array.
+
+        Parameters
+        ----------
+        text : string
+            A string containing N numbers separated by blank spaces.
+        dtype : string
+            The type of the numbers.
+
+        Returns
+        -------
+        data : ndarray
+            | Dimension: (N)
+            An array containing N numbers.
+
+        """
+
+        if '****' in text:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
+            sys.exit(self.ERROR_OVERFLOW)
+
+        return np.array(text.split(), dtype=dtype)
+
     def _convert_array_i(self, entry):
         """
         Convert the input entry to numpy array.
@@ -2695,11 +2720,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         data = None
         if entry is not None:
             try:
-                data = np.fromstring(entry.text, sep=' ', dtype='intc')
+                data = self._convert_text(entry.text, dtype='intc')
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                # Only a truncated file can contain incomplete entries
+                if not self._xml_truncated:
+                    raise
 
         return data
 
@@ -2724,11 +2752,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         data = None
         if entry is not None:
             try:
-                data = np.fromstring(entry.text, sep=' ', dtype='double')
+                data = self._convert_text(entry.text)
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                # Only a truncated file can contain incomplete entries
+                if not self._xml_truncated:
+                    raise
 
         return data
 
@@ -2755,11 +2786,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros(len(entry), dtype='intc')
         for index, element in enumerate(entry):
             try:
-                data[index] = np.fromstring(element.text, sep=' ')
+                data[index] = self._convert_text(element.text)
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                # Only a truncated file can contain incomplete entries
+                if not self._xml_truncated:
+                    raise
 
         return data
 
@@ -2787,11 +2821,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros(len(entry), dtype='double')
         for index, element in enumerate(entry):
             try:
-                data[index] = np.fromstring(element.text, sep=' ')
+                data[index] = self._convert_text(element.text)
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                # Only a truncated file can contain incomplete entries
+                if not self._xml_truncated:
+                    raise
 
         return data
 
@@ -2822,11 +2859,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         for index, element in enumerate(entry):
             try:
-                data[index] = np.fromstring(element.text, sep=' ')
+                data[index] = self._convert_text(element.text)
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                # Only a truncated file can contain incomplete entries
+                if not self._xml_truncated:
+                    raise
 
         return data
 
-- 
2.43.0


From 8b6039788d52c220aabfad26045d43d7733fccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 42/50] fix: make the keys of the OUTCAR results independent of
 the content

---
 parsevasp/outcar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 38f1fc0..91f9d87 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -44,7 +44,7 @@ class Outcar(BaseParser):
 
         self._data = {
             'elastic_moduli': {
-                'non-symmetrized': None,
+                'non_symmetrized': None,
                 'symmetrized': None,
                 'total': None
             },
@@ -83,6 +83,7 @@ class Outcar(BaseParser):
             'run_status': {
                 'nelm': None,
                 'nsw': None,
+                'nbands': None,
                 'last_iteration_index': None,
                 'finished': False,
                 'ionic_converged': False,
-- 
2.43.0


From 4e8f1dd04ea5ba5f69e43be6531e02320c5181bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 43/50] fix: report the number of primitive cells in the
 supercell of OUTCAR

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 91f9d87..847aa0b 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -162,7 +162,7 @@ class Outcar(BaseParser):
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
-                    text = f'{line.strip().split()} primitive cells'
+                    text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
-- 
2.43.0


From 8ca970ce167fb5a2ef31313908e5c82fb01ea611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:32 +0000
Subject: [PATCH 44/50] fix: store every DOSCAR column under its own spin
 component

---
 parsevasp/doscar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index f08eae9..1768e70 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -52,7 +52,7 @@ DTYPES_PDOS_NONCOLLINEAR = {
     37:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-              ('x2-y2', float, (4,))]),
+              ('dx2-y2', float, (4,))]),
     65:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
@@ -212,7 +212,7 @@ class Doscar(BaseParser):
             if num_spin == 1:
                 dos[name] = np.squeeze(dos_data[:, i + 1:i + 1 + num_spin], axis=1)
             else:
-                dos[name] = dos_data[:, i + 1:i + 1 + num_spin]
+                dos[name] = dos_data[:, 1 + i * num_spin:1 + (i + 1) * num_spin]
 
         # Partial density of states
         pdos_items = []
@@ -237,7 +237,7 @@ class Doscar(BaseParser):
                 if num_spin == 1:  # Only squeeze if there is only one spin component
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
-                    pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+                    pdos[name] = pdos_data[:, :, 1 + i * num_spin:1 + (i + 1) * num_spin]
 
         metadata = {}
         metadata['n_ions'] = num_ions
-- 
2.43.0


From d4d86af3c92dd5b84ae26486ced846b3c07053f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 45/50] fix: convert the whole number of a POTCAR parameter

Numbers with a signed exponent were cut off at the sign and malformed
ones at the first unexpected character.
---
 parsevasp/potcar.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index b2b51c9..7049e11 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -112,24 +112,24 @@ class Potcar(BaseParser):
             'LULTRA': lambda val: re.match(r'^\.?([TFtf])[A-Za-z]*\.?', val).group(1).lower() in ['t'],
             'LCOR': lambda val: re.match(r'^\.?([TFtf])[A-Za-z]*\.?', val).group(1).lower() in ['t'],
             'LPAW': lambda val: re.match(r'^\.?([TFtf])[A-Za-z]*\.?', val).group(1).lower() in ['t'],
-            'IUNSCR': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'NDATA': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'ICORE': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
+            'IUNSCR': lambda val: int(val.split()[0]),
+            'NDATA': lambda val: int(val.split()[0]),
+            'ICORE': lambda val: int(val.split()[0]),
+            'EATOM': lambda val: float(val.split()[0]),
+            'RPACOR': lambda val: float(val.split()[0]),
+            'POMASS': lambda val: float(val.split()[0]),
+            'ZVAL': lambda val: float(val.split()[0]),
+            'RCORE': lambda val: float(val.split()[0]),
+            'RWIGS': lambda val: float(val.split()[0]),
+            'ENMAX': lambda val: float(val.split()[0]),
+            'ENMIN': lambda val: float(val.split()[0]),
+            'RCLOC': lambda val: float(val.split()[0]),
+            'EAUG': lambda val: float(val.split()[0]),
+            'DEXC': lambda val: float(val.split()[0]),
+            'RMAX': lambda val: float(val.split()[0]),
+            'RAUG': lambda val: float(val.split()[0]),
+            'RDEP': lambda val: float(val.split()[0]),
+            'RDEPT': lambda val: float(val.split()[0]),
             'STEP': lambda val: [float(y) for y in re.split(r'\s+', val.strip()) if not y.isalpha()],
         }
         search_lines = re.search(
-- 
2.43.0


From c736fddd8c06cccc59aebe2b3521be8d537c1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 46/50] fix: do not drop POSCAR predictors that are no numbers

A predictor block after the velocities was ignored when its first
coordinate could not be converted. The same block without velocities
already ends with an error code.
---
 parsevasp/poscar.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index e0d0935..87d0436 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -324,14 +324,16 @@ class Poscar(BaseParser):
             if len(poscar) > loopmax_pos:
                 if poscar[loopmax_pos].replace(' ', '') == '\n':
                     loopmax_pos = loopmax_pos + 1
-                    if utils.is_number(poscar[loopmax_pos].split()[0]):
-                        for i in range(nions):
-                            line = poscar[i + loopmax_pos].split()
-                            pre = np.zeros(3)
-                            pre[0] = float(line[0])
-                            pre[1] = float(line[1])
-                            pre[2] = float(line[2])
-                            sites_temp[i][4] = pre
+                    if not utils.is_number(poscar[loopmax_pos].split()[0]):
+                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_VEL_OR_PRED])
+                        sys.exit(self.ERROR_NO_VEL_OR_PRED)
+                    for i in range(nions):
+                        line = poscar[i + loopmax_pos].split()
+                        pre = np.zeros(3)
+                        pre[0] = float(line[0])
+                        pre[1] = float(line[1])
+                        pre[2] = float(line[2])
+                        sites_temp[i][4] = pre
         # Do one final loop to create the objects and read
         # predictors if they exist
         sites = []
-- 
2.43.0


From 8e513eaaae9d0bbef7cb405d45741b5d958767e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:30 +0000
Subject: [PATCH 47/50] fix: refuse None as the value of a POSCAR site or
 KPOINTS point

---
 parsevasp/kpoints.py | 4 ++++
 parsevasp/poscar.py  | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 3e3f7b1..de5a153 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -310,6 +310,10 @@ class Kpoints(BaseParser):
         self._check_dict()
         if point_number is not None:
             # Check that a Kpoint() object is supplied
+            if value is None:
+                # The check below falls back to the current value for None
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
+                sys.exit(self.ERROR_WRONG_OBJECT)
             self._check_point(value)
             # Check site number
             self._check_point_number(point_number)
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 87d0436..ee590e2 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -388,6 +388,12 @@ class Poscar(BaseParser):
         self._check_dict()
         if site_number is not None:
             # Check that a Site() object is supplied
+            if value is None:
+                # The check below falls back to the current value for None
+                self._logger.error(
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'site' is not a Site() object."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
             self._check_site(value)
             # Check site number
             self._check_site_number(site_number)
-- 
2.43.0


From e5e815e0fab5776ff8c02cd9cd727dd4cd84e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 48/50] fix: report missing POSCAR and KPOINTS entries with
 their error code

---
 parsevasp/kpoints.py | 4 ++--
 parsevasp/poscar.py  | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index de5a153..d910c5c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -403,8 +403,8 @@ class Kpoints(BaseParser):
 
         # Check that at least divisions or points are set
         # to something else than None
-        if ((self.entries['divisions'] is None) and (self.entries['points'] is None) and
-            (self.entries['generating_vectors'] is None)):
+        if ((self.entries.get('divisions') is None) and (self.entries.get('points') is None) and
+            (self.entries.get('generating_vectors') is None)):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
             sys.exit(self.ERROR_DIVISIONS)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index ee590e2..4a704fc 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -146,6 +146,9 @@ class Poscar(BaseParser):
 
         """
 
+        if 'sites' not in self._poscar_dict:
+            self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
+            sys.exit(self.ERROR_NO_KEY)
         sites = []
         for site in self._poscar_dict['sites']:
             if not isinstance(site, Site):
-- 
2.43.0


From 09f2d72dc54313e170b67f032717f68b555e68cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:33 +0000
Subject: [PATCH 49/50] fix: filter the lines of a file by whole words, each
 line once

---
 parsevasp/utils.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 13955f8..c6ac301 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -63,22 +63,10 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
         if not lines:
             return file_data
 
-    parsed = []
-
-    # first check if contains is a list
-    is_list = is_sequence(contains)
-
     if contains is not None:
-        # this can be a bit faster (comprehension), but do not care for this
-        # now
-        for _, line in enumerate(file_data):
-            if is_list:
-                for element in contains:
-                    if element in line:
-                        parsed.append(line)
-            else:
-                if contains in line:
-                    parsed = line
+        # first check if contains is a list
+        elements = contains if is_sequence(contains) else [contains]
+        parsed = [line for line in file_data if any(element in line for element in elements)]
     else:
         parsed = file_data
 
@@ -138,11 +126,10 @@ def is_sequence(arg):
 
     """
 
-    if not hasattr(arg, 'strip') and hasattr(arg, '__getitem__'):
-        return True
-    if hasattr(arg, '__iter__'):
-        return True
-    return False
+    # A string can be iterated and indexed, but is not a list
+    if hasattr(arg, 'strip'):
+        return False
+    return hasattr(arg, '__getitem__') or hasattr(arg, '__iter__')
 
 
 def test_string_content(string):
-- 
2.43.0


From 5266bd5e2a23c51924c4cae5ea11b65f128faedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:35 +0000
Subject: [PATCH 50/50] fix: take the second word of TITEL whatever separates
 the words

---
 parsevasp/potcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 7049e11..5972648 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -144,7 +144,7 @@ class Potcar(BaseParser):
                 self.metadata[key] = _parameters_to_parse[key](val)
 
         try:
-            self._symbol = self.metadata['TITEL'].split(' ')[1].strip()
+            self._symbol = self.metadata['TITEL'].split()[1]
         except IndexError:
             self._symbol = self.metadata['TITEL'].strip()
 
-- 
2.43.0

