From b206523d1ba63cbbd7a7fb6c08e5ad82c6e38e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 01/20] fix: do not mutate the global field size limit during
 dialect detection

The limit stayed at len(sample)+1 when detection raised, and concurrent
detections could restore each other's temporary value.
---
 clevercsv/consistency.py  |  7 -------
 clevercsv/cparser_util.py | 17 +++++++++++++++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/clevercsv/consistency.py b/clevercsv/consistency.py
index a7454f3..9da5d4b 100644
--- a/clevercsv/consistency.py
+++ b/clevercsv/consistency.py
@@ -15,7 +15,6 @@ from typing import Iterable
 from typing import List
 from typing import Optional
 
-from . import field_size_limit
 from .break_ties import tie_breaker
 from .cparser_util import parse_string
 from .detect_pattern import pattern_score
@@ -113,11 +112,6 @@ class ConsistencyDetector:
         # TODO: probably some optimization there too
         dialects = get_dialects(data, delimiters=delimiters)
 
-        # TODO: This is not thread-safe and this object can simply own a Parser
-        # for each dialect and set the limit directly there (we can also cache
-        # the best parsing result)
-        old_limit = field_size_limit(len(data) + 1)
-
         scores = self.compute_consistency_scores(data, dialects)
         best_dialects = ConsistencyDetector.get_best_dialects(scores)
         result: Optional[SimpleDialect] = None
@@ -126,7 +120,6 @@ class ConsistencyDetector:
         else:
             result = tie_breaker(data, best_dialects)
 
-        field_size_limit(old_limit)
         return result
 
     def compute_consistency_scores(
diff --git a/clevercsv/cparser_util.py b/clevercsv/cparser_util.py
index 484c257..d99ae1b 100644
--- a/clevercsv/cparser_util.py
+++ b/clevercsv/cparser_util.py
@@ -53,13 +53,16 @@ def _parse_data(
     escapechar: str,
     strict: bool,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     parser = Parser(
         data,
         delimiter=delimiter,
         quotechar=quotechar,
         escapechar=escapechar,
-        field_limit=field_size_limit(),
+        field_limit=(
+            field_size_limit() if field_limit is None else field_limit
+        ),
         strict=strict,
         return_quoted=return_quoted,
     )
@@ -78,6 +81,7 @@ def parse_data(
     escapechar: Optional[str] = None,
     strict: Optional[bool] = None,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     """Parse the data given a dialect using the C parser
 
@@ -110,6 +114,10 @@ def parse_data(
         For each cell, return a tuple "(field, is_quoted)" where the second
         element indicates whether the cell was a quoted cell or not.
 
+    field_limit : int
+        The maximum field size for this parse. If None, the value of
+        :func:`field_size_limit` is used.
+
     Yields
     ------
     rows : list
@@ -136,6 +144,7 @@ def parse_data(
         escapechar_,
         strict_,
         return_quoted=return_quoted,
+        field_limit=field_limit,
     )
 
 
@@ -144,9 +153,13 @@ def parse_string(
     dialect: SimpleDialect,
     return_quoted: bool = False,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
-    """Utility for when the CSV file is encoded as a single string"""
+    """Utility for when the CSV file is encoded as a single string
+
+    The data is already in memory, so the field size is not limited here.
+    """
     return parse_data(
         iter(io.StringIO(data, newline="")),
         dialect=dialect,
         return_quoted=return_quoted,
+        field_limit=len(data) + 1,
     )
-- 
2.43.0


From 72355870a32f79d1393c067029f7876fe595e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 02/20] fix: reader no longer modifies the dialect object
 passed by the caller

---
 clevercsv/read.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 90ce386..229b83a 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -49,7 +49,12 @@ class reader:
         elif isinstance(dialect, csv.Dialect):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
-            sd = dialect
+            sd = SimpleDialect(
+                dialect.delimiter,
+                dialect.quotechar,
+                dialect.escapechar,
+                strict=dialect.strict,
+            )
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-- 
2.43.0


From 4beed137bfbdd37e3959028cac36f1d5a3bdcfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 03/20] fix: iterating over a reader continues where next()
 left off

Calling iter() on a reader re-created the parser, so records already
consumed with next() were returned again for re-iterable sources.
---
 clevercsv/read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 229b83a..2891519 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -64,6 +64,8 @@ class reader:
         return sd
 
     def __iter__(self) -> Iterator[List[str]]:
+        if self.parser_gen is not None:
+            return self
         self.parser_gen = Parser(
             self.csvfile,
             delimiter=self._dialect.delimiter,
-- 
2.43.0


From 8f5fce836d2d6f852f26b132f435682861851e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 04/20] fix: do not drop the last record when the data ends in
 an escape

At the end of the input a record in progress was only returned when its
last field was non-empty or quoted, so 'a,\\' (escapechar at the end of
the data) lost the whole record.
---
 src/cparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 242ba6d..6d8a1e1 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -464,8 +464,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 		lineobj = PyIter_Next(self->input_iter);
 		if (lineobj == NULL) {
 			/* End of input OR exception */
-			if (!PyErr_Occurred() && (self->field_len != 0 ||
-						self->state == IN_QUOTED_FIELD)) {
+			if (!PyErr_Occurred() && self->state != START_RECORD) {
 				if (self->strict) {
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
-- 
2.43.0


From 85e246a796f0f37412d827e5e1e8ac3fe6c28384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 05/20] fix: check for allocation failure when stripping quotes
 in the parser

---
 src/cparser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cparser.c b/src/cparser.c
index 6d8a1e1..ff5a83a 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -161,6 +161,10 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
 	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
 	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
+	if (new == NULL) {
+		Py_DECREF(str);
+		return NULL;
+	}
 	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
 	Py_DECREF(str);
 	return new;
-- 
2.43.0


From ebd461f6d172fbb00768f1ddd7192df9449792c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 06/20] fix: parser arguments were leaked when the source is
 not iterable

---
 src/cparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index ff5a83a..5583bf3 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -680,8 +680,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	if (self->input_iter == NULL) {
 		PyErr_SetString(PyExc_TypeError,
 				"argument 1 must be an iterator");
-		Py_DECREF(self);
-		return NULL;
+		goto err;
 	}
 
 	PyObject_GC_Track(self);
-- 
2.43.0


From 6d7175b5f43cc18d83b82f703cd4054c2fb456cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 07/20] fix: re-entrant use of a parser crashed the interpreter

A source that advances the parser it is feeding (or a second thread doing
so while the source blocks) left the parser without a current record and
the outer call dereferenced NULL. Raise ValueError, like generators do.
---
 src/cparser.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 5583bf3..66ccc9f 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -79,6 +79,7 @@ typedef struct {
 	int doublequote;
 	int strict;
 	int return_quoted;
+	int executing;
 
 	ParserState state;
 } ParserObj;
@@ -448,7 +449,7 @@ static int parse_reset(ParserObj *self)
 	return 0;
 }
 
-static PyObject *Parser_iternext(ParserObj *self)
+static PyObject *parse_next_record(ParserObj *self)
 {
 	PyObject *fields = NULL;
 	Py_UCS4 u, v;
@@ -536,6 +537,21 @@ err:
 	return NULL;
 }
 
+static PyObject *Parser_iternext(ParserObj *self)
+{
+	PyObject *record;
+
+	/* The source can run arbitrary code, or let another thread run */
+	if (self->executing) {
+		PyErr_SetString(PyExc_ValueError, "parser already executing");
+		return NULL;
+	}
+	self->executing = 1;
+	record = parse_next_record(self);
+	self->executing = 0;
+	return record;
+}
+
 static void Parser_dealloc(ParserObj *self)
 {
 	PyObject_GC_UnTrack(self);
@@ -634,6 +650,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	self->field_size = 0;
 	self->doublequote = 0;
 	self->return_quoted = 0;
+	self->executing = 0;
 
 	if (parse_reset(self) < 0) {
 		Py_DECREF(self);
-- 
2.43.0


From 5ad4921b535defd7a16e5d3612879f7428d760bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 08/20] fix: standardize --in-place replaces the file
 atomically and cleans up

Write the temporary file next to the target and rename it into place, so
that a failure or crash can't leave a truncated file (shutil.move copies
across file systems), flush it to disk first, keep the file mode, follow
symbolic links, and remove the temporary file when anything fails.
---
 clevercsv/console/commands/standardize.py | 35 ++++++++++++++++-------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f25c9e4..87c6238 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -252,18 +252,33 @@ class StandardizeCommand(Command):
         modified.
 
         """
-        tmpfd, tmpfname = tempfile.mkstemp(prefix="clevercsv_", suffix=".csv")
-        tmpid = os.fdopen(tmpfd, "w", newline="", encoding=target_encoding)
-        self._write_to_stream(path, tmpid, dialect, encoding)
-        tmpid.close()
+        # The temporary file lives next to the (resolved) target, so that it can
+        # be moved into place atomically.
+        target = os.path.realpath(path)
+        tmpfd, tmpfname = tempfile.mkstemp(
+            prefix="clevercsv_", suffix=".csv", dir=os.path.dirname(target)
+        )
+        try:
+            tmpid = os.fdopen(
+                tmpfd, "w", newline="", encoding=target_encoding
+            )
+            with tmpid:
+                self._write_to_stream(path, tmpid, dialect, encoding)
+                tmpid.flush()
+                os.fsync(tmpid.fileno())
 
-        previous_sha1 = sha1sum(path)
-        new_sha1 = sha1sum(tmpfname)
-        if previous_sha1 == new_sha1:
-            os.unlink(tmpfname)
-            return 0
+            previous_sha1 = sha1sum(path)
+            new_sha1 = sha1sum(tmpfname)
+            if previous_sha1 == new_sha1:
+                os.unlink(tmpfname)
+                return 0
 
-        shutil.move(tmpfname, path)
+            shutil.copymode(target, tmpfname)
+            os.replace(tmpfname, target)
+        except BaseException:
+            if os.path.exists(tmpfname):
+                os.unlink(tmpfname)
+            raise
         return 2
 
     def _to_stdout(
-- 
2.43.0


From 931aec5ea3bbb1a36143838c6f65860c82bb75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 09/20] fix: standardize -o emptied the file when the output is
 the input file

---
 clevercsv/console/commands/standardize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 87c6238..6dcbb57 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -298,6 +298,9 @@ class StandardizeCommand(Command):
         encoding: Optional[str],
         target_encoding: Optional[str],
     ) -> int:
+        # Read everything before opening the output, it can be the input file.
+        stream = io.StringIO(newline="")
+        self._write_to_stream(path, stream, dialect, encoding)
         with open(output, "w", newline="", encoding=target_encoding) as fp:
-            self._write_to_stream(path, fp, dialect, encoding)
+            fp.write(stream.getvalue())
         return 0
-- 
2.43.0


From e1596a6ac37b44cfef69c10541acb9836c9c9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 10/20] fix: measure the detection runtime with a monotonic
 clock

---
 clevercsv/console/commands/detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clevercsv/console/commands/detect.py b/clevercsv/console/commands/detect.py
index 58ccefb..113e404 100644
--- a/clevercsv/console/commands/detect.py
+++ b/clevercsv/console/commands/detect.py
@@ -106,7 +106,7 @@ class DetectCommand(Command):
         method = "consistency" if self.args.consistency else "auto"
         skip = not self.args.no_skip
 
-        t_start = time.time()
+        t_start = time.perf_counter()
         dialect = detect_dialect(
             self.args.path,
             num_chars=num_chars,
@@ -115,7 +115,7 @@ class DetectCommand(Command):
             method=method,
             skip=skip,
         )
-        runtime = time.time() - t_start
+        runtime = time.perf_counter() - t_start
 
         if dialect is None:
             print("Error: Dialect detection failed.", file=sys.stderr)
-- 
2.43.0


From 9b5108b0da39f0faff974fc0469792ef6668abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 11/20] fix: dialect detection depended on the string hash seed

reduce_pairwise returned its dialects in set order, and break_ties_two and
break_ties_three are not symmetric in their arguments.
---
 clevercsv/break_ties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 490adfd..e9970b4 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -94,7 +94,7 @@ def reduce_pairwise(
         if d not in visited:
             new_dialects.add(d)
 
-    return list(new_dialects)
+    return [d for d in dialects if d in new_dialects]
 
 
 def _dialects_only_differ_in_field(
-- 
2.43.0


From caad4dd547f5d6c6bf2792a1bc1ad26ecf870247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 12/20] fix: writing with a dialect without quotechar escaped
 double quotes

to_csv_dialect set quotechar to '"' for dialects that have no quotechar,
so the writer put the escapechar in front of double quotes and reading
the file back with the same dialect gave different cells.
---
 clevercsv/dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 9d909d9..0c6bc07 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -106,7 +106,7 @@ class SimpleDialect:
         class dialect(csv.Dialect):
             assert self.delimiter is not None
             delimiter = self.delimiter
-            quotechar = '"' if self.quotechar == "" else self.quotechar
+            quotechar = None if self.quotechar == "" else self.quotechar
             escapechar = None if self.escapechar == "" else self.escapechar
             doublequote = True
             quoting = (
-- 
2.43.0


From d16dff938d2219178268e334c036d4799d6b5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 13/20] fix: write_table dropped cells of ragged tables when
 transposing

The length check ran after zip() had already truncated the rows. Also don't
create (or truncate) the file for an empty table given as an iterator.
---
 clevercsv/wrappers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 18dc6d7..73c6f62 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -445,14 +445,17 @@ def write_table(
     if not table:
         return
 
-    if transpose:
-        list_table = list(map(list, zip(*table)))
-    else:
-        list_table = list(map(list, table))
+    list_table = list(map(list, table))
 
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if transpose:
+        list_table = list(map(list, zip(*list_table)))
+
+    if not list_table:
+        return
+
     with open(filename, "w", newline="", encoding=encoding) as fp:
         w = writer(fp, dialect=dialect)
         w.writerows(list_table)
-- 
2.43.0


From 89ab4dfb17bdb4b13ec73aca351056a82659448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 14/20] fix: standardize --transpose dropped cells of rows of
 unequal length

---
 clevercsv/console/commands/standardize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 6dcbb57..f7ba3ea 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -8,6 +8,7 @@ import shutil
 import sys
 import tempfile
 
+from itertools import zip_longest
 from typing import TYPE_CHECKING
 from typing import Optional
 
@@ -207,7 +208,7 @@ class StandardizeCommand(Command):
         with open(path, "r", newline="", encoding=encoding) as fp:
             read = reader(fp, dialect=dialect)
             rows = list(read)
-        rows = list(map(list, zip(*rows)))
+        rows = list(map(list, zip_longest(*rows, fillvalue="")))
         write = writer(stream, dialect="excel")
         for row in rows:
             write.writerow(row)
-- 
2.43.0


From 3eb3ad3236f29707dc4182ee2b593b4d5ee0c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 15/20] fix: csv dialects without 'strict' attribute could not
 be used for reading

---
 clevercsv/dialect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 0c6bc07..369cf44 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -100,7 +100,9 @@ class SimpleDialect:
         delimiter = "" if d.delimiter is None else d.delimiter
         quotechar = "" if d.quoting == csv.QUOTE_NONE else d.quotechar
         escapechar = "" if d.escapechar is None else d.escapechar
-        return cls(delimiter, quotechar, escapechar, strict=d.strict)
+        # csv.Dialect does not define strict, its default value is False
+        strict = getattr(d, "strict", False)
+        return cls(delimiter, quotechar, escapechar, strict=strict)
 
     def to_csv_dialect(self) -> csv.Dialect:
         class dialect(csv.Dialect):
@@ -113,6 +115,7 @@ class SimpleDialect:
                 csv.QUOTE_NONE if self.quotechar == "" else csv.QUOTE_MINIMAL
             )
             skipinitialspace = False
+            strict = self.strict
             # TODO: We need to set this because it can't be None anymore in
             # recent versions of Python
             lineterminator = "\n"
-- 
2.43.0


From 6a524aa980811189af5967ed1d85a2935959435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 16/20] fix: errors raised by a source's __iter__ were replaced
 by TypeError

---
 src/cparser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 66ccc9f..d84c471 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -695,8 +695,10 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 
 	self->input_iter = PyObject_GetIter(iterator);
 	if (self->input_iter == NULL) {
-		PyErr_SetString(PyExc_TypeError,
-				"argument 1 must be an iterator");
+		/* keep errors raised by the object's own __iter__ */
+		if (PyErr_ExceptionMatches(PyExc_TypeError))
+			PyErr_SetString(PyExc_TypeError,
+					"argument 1 must be an iterator");
 		goto err;
 	}
 
-- 
2.43.0


From 3fb195977cb1bb809cf7556b4f672eb22cacc4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 17/20] fix: native abstraction functions read arbitrary memory
 when given a non-string

---
 src/abstraction.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 6034f4e..f907e83 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -60,7 +60,7 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 		 *quotechar_obj = NULL,
 		 *escapechar_obj = NULL;
 
-	if (!PyArg_ParseTuple(args, "OOOO", &S, &delimiter_obj, &quotechar_obj,
+	if (!PyArg_ParseTuple(args, "UOOO", &S, &delimiter_obj, &quotechar_obj,
 				&escapechar_obj)) {
 		return NULL;
 	}
@@ -153,7 +153,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 
 	// retrieve the string from the function arguments
 	PyObject *S = NULL;
-	if (!PyArg_ParseTuple(args, "O", &S)) {
+	if (!PyArg_ParseTuple(args, "U", &S)) {
 		return NULL;
 	}
 
-- 
2.43.0


From 67c85936fd188403060a6b8571dbbb76aba19265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 18/20] fix: cells unquoted with a non-Latin-1 quote character
 did not compare equal to the same text

---
 src/cparser.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index d84c471..6e752f2 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -160,13 +160,10 @@ static int _set_char(const char *name, Py_UCS4 *target, PyObject *src, Py_UCS4 d
  */
 static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
-	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
-	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	if (new == NULL) {
-		Py_DECREF(str);
-		return NULL;
-	}
-	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	/* PyUnicode_Substring gives the narrowest representation, which a string
+	 * must have to compare equal to other strings with the same content. */
+	Py_ssize_t end = PyUnicode_GetLength(str) - strip_back;
+	PyObject *new = PyUnicode_Substring(str, strip_front, end);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From bf3958081539b36be6fe95b2bd8c5c691a4a8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 19/20] fix: quote file name, encoding and dialect properly in
 generated code

A backslash delimiter or a file name with quotes, backslashes or newlines
gave code that is not valid Python or that opens another file.
---
 clevercsv/console/commands/_utils.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 20c1861..f88b0d6 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import json
+
 from typing import Any
 from typing import List
 from typing import Optional
@@ -20,6 +22,11 @@ def parse_int(val: Any, name: str) -> Optional[int]:
         )
 
 
+def _quoted(val: Optional[str]) -> str:
+    """Python source for a string, in double quotes"""
+    return "None" if val is None else json.dumps(val, ensure_ascii=False)
+
+
 def generate_code(
     filename: str,
     dialect: SimpleDialect,
@@ -27,9 +34,10 @@ def generate_code(
     use_pandas: bool = False,
 ) -> List[str]:
     assert dialect.quotechar is not None
-    d = '"\\t"' if dialect.delimiter == "\t" else f'"{dialect.delimiter}"'
-    q = '"%s"' % (dialect.quotechar.replace('"', '\\"'))
-    e = repr(f"{dialect.escapechar}").replace("'", '"')
+    f = _quoted(filename)
+    d = _quoted(dialect.delimiter)
+    q = _quoted(dialect.quotechar)
+    e = _quoted(dialect.escapechar)
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
@@ -40,16 +48,16 @@ def generate_code(
         return [
             *base,
             "",
-            f'df = clevercsv.read_dataframe("{filename}", delimiter={d}, '
+            f"df = clevercsv.read_dataframe({f}, delimiter={d}, "
             f"quotechar={q}, escapechar={e})",
             "",
         ]
 
-    enc = "None" if encoding is None else f'"{encoding}"'
+    enc = _quoted(encoding)
     lines = [
         *base,
         "",
-        f'with open("{filename}", "r", newline="", encoding={enc}) as fp:',
+        f'with open({f}, "r", newline="", encoding={enc}) as fp:',
         "    reader = clevercsv.reader(fp, "
         + f"delimiter={d}, quotechar={q}, escapechar={e})",
         "    rows = list(reader)",
-- 
2.43.0


From 1cb3543ffccb8b8be91211868bb4ec7ffde010ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 20/20] fix: concurrent read_dataframe calls could leave a
 warning filter installed

---
 clevercsv/wrappers.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 73c6f62..f77ac06 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -9,7 +9,6 @@ Author: Gertjan van den Burg
 from __future__ import annotations
 
 import os
-import warnings
 
 from typing import TYPE_CHECKING
 from typing import Any
@@ -39,6 +38,17 @@ if TYPE_CHECKING:
 
 _T = TypeVar("_T")
 
+# Arguments of pandas.read_csv that the dialect overrides
+_PANDAS_DIALECT_ARGS = (
+    "sep",
+    "delimiter",
+    "doublequote",
+    "escapechar",
+    "quotechar",
+    "quoting",
+    "skipinitialspace",
+)
+
 
 def stream_dicts(
     filename: FileDescriptorOrPath,
@@ -336,15 +346,14 @@ def read_dataframe(
 
     csv_dialect = dialect.to_csv_dialect()
 
-    # This is used to catch pandas' warnings when a dialect is supplied.
-    with warnings.catch_warnings():
-        warnings.filterwarnings(
-            "ignore",
-            message="^Conflicting values for .*",
-            category=pd.errors.ParserWarning,
-        )
-        df = pd.read_csv(filename, *args, dialect=csv_dialect, **kwargs)
-    return df
+    # The detected dialect takes precedence over these arguments. Pandas does
+    # the same, but warns about it. We don't silence the warning instead,
+    # because warnings.catch_warnings() is not thread-safe and can change the
+    # warning filters permanently.
+    for key in _PANDAS_DIALECT_ARGS:
+        kwargs.pop(key, None)
+
+    return pd.read_csv(filename, *args, dialect=csv_dialect, **kwargs)
 
 
 def detect_dialect(
-- 
2.43.0

