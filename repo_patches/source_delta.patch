From 49c2ece70d510a61269336e543db5cc112b1a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 01/30] fix: a column's length counts its leading empty rows

---
 rxls/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/series.py b/rxls/series.py
index 55c1f88..72f652b 100644
--- a/rxls/series.py
+++ b/rxls/series.py
@@ -70,7 +70,7 @@ class xl_series:  # noqa: N801
         self.__binary = binary
 
     def __len__(self) -> int:
-        return self.__e_row - self.__s_row + 1
+        return self.__e_row + 1
 
     def __pull_chunk(self) -> None:
         """Normalize chunk and add it to underlying list."""
-- 
2.43.0


From 73046c6b7bfc076e8ea7f902003f54ed4f5c1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 02/30] fix: return the deduplicated header names

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 8a3a5b3..5f40c66 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -65,7 +65,7 @@ def __make_header(
 
         result_hdrs.append(n)
 
-    return hdrs
+    return result_hdrs
 
 
 def __find_header(
-- 
2.43.0


From ff69eb12b5ec7775be10c9d3e86acc061f05e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 03/30] fix: an offset without a length keeps every following
 chunk

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d0f1841..ddc047e 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -407,7 +407,7 @@ class chunk:  # noqa: D101, N801
                 if _chunk.size:
                     result.append(_chunk)
 
-                if cum_len >= length:
+                if length and cum_len >= length:
                     break
 
         if length and cum_len < length:
-- 
2.43.0


From 580202726bab4a8fa43eb4556eeaf79e016b246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 04/30] fix: skipped rows are counted, and skipping does not
 limit how many rows are read

---
 rxls/reader/xlsb.py | 5 +++--
 rxls/reader/xlsx.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 0a51fe1..42e1ca1 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -209,7 +209,8 @@ class XlsbWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
         row = -1
         is_empty_row = False
 
@@ -227,7 +228,7 @@ class XlsbWorkbook:  # noqa: D101
             # * 402: BrtEndSheetData
             for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
                 if not r.rec_id:
-                    if not is_empty_row or take_rows_non_empty:
+                    if not is_empty_row or take_rows_non_empty or row < skip_rows:
                         row += 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 39d1a8f..1cae85e 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -284,7 +284,8 @@ class XlsxWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
 
         def worker(
             io: IO[bytes],
@@ -397,7 +398,7 @@ class XlsxWorkbook:  # noqa: D101
                 if tag == "row":
                     # ? Row number for cells increases here only.
                     # * If row was empty and take_non_empty, do not increase row number
-                    if not is_empty_row or take_non_empty:
+                    if not is_empty_row or take_non_empty or row < skip_rows:
                         row += 1
 
                     if callback is not None:
-- 
2.43.0


From 3d35c6c60e8ea96421b1b682bdd6277976244319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 05/30] fix: every xlsx row starts out empty, and empty rows do
 not move the row limit

---
 rxls/reader/xlsx.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 1cae85e..bbe3b11 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -404,12 +404,8 @@ class XlsxWorkbook:  # noqa: D101
                     if callback is not None:
                         callback()
 
-                    if is_empty_row:
-                        take_rows += take_non_empty
+                    is_empty_row = True
 
-                    # ? If entire row is empty, just increase max row count
-                    if take_non_empty:
-                        take_rows += is_empty_row
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
                         raise GeneratorExit
-- 
2.43.0


From ea04ffa22a0743c2a0ff8bcbbf6e81baf745ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 06/30] fix: compare xlsb texts with the error strings as text

---
 rxls/reader/xlsb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 42e1ca1..bdecd37 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -35,7 +35,7 @@ re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
 ERROR_STRINGS = frozenset(
-    x.encode("utf-16")
+    x
     for x in (
         "#NULL!",
         "#DIV/0!",
-- 
2.43.0


From 47a0c52c33d0a974c91e14db6888f056af31bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 07/30] fix: a workbook without a shared strings part can be
 read

---
 rxls/reader/xlsb.py | 3 +++
 rxls/reader/xlsx.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index bdecd37..b444276 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -127,6 +127,9 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        if "xl/sharedStrings.bin" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())  # type: ignore
+
         with self.zf.open("xl/sharedStrings.bin") as io:
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index bbe3b11..ecea64d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -159,6 +159,9 @@ class XlsxWorkbook:  # noqa: D101
 
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
+        if "xl/sharedStrings.xml" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())  # type: ignore
+
         with self.zf.open("xl/sharedStrings.xml") as io:
             must_be = False
 
-- 
2.43.0


From 782f7f5dc24eecf324497a9b6b3403edbe6e191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 08/30] fix: null shared strings are known before the first
 cell, and xlsx tests their text, not their index

---
 rxls/reader/xlsb.py | 1 +
 rxls/reader/xlsx.py | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index b444276..1fadd26 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -214,6 +214,7 @@ class XlsbWorkbook:  # noqa: D101
 
         if take_rows:
             take_rows += skip_rows
+        _ = self.shared  # null_shared is filled while the shared strings are read
         row = -1
         is_empty_row = False
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index ecea64d..d10334c 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -326,7 +326,7 @@ class XlsxWorkbook:  # noqa: D101
                 callback()
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
+                nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows, is_sharedstr
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -334,7 +334,8 @@ class XlsxWorkbook:  # noqa: D101
                         l_col = attrs["r"]
 
                         # ? check, if value is shared string index:
-                        if attrs.get("t") == "s":
+                        is_sharedstr = attrs.get("t") == "s"
+                        if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
@@ -436,6 +437,7 @@ class XlsxWorkbook:  # noqa: D101
             finally:
                 o_q.put(sentinel)
 
+        _ = self.shared  # null_shared is filled while the shared strings are read
         o_q: Queue[cell] = Queue()
         sentinel = object()
 
-- 
2.43.0


From 702ec248e336ea76c08789758fea53a93d432288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 09/30] fix: an xlsx shared string is all of its text runs,
 however the parser splits them

---
 rxls/reader/xlsx.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index d10334c..64a3649 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -164,26 +164,35 @@ class XlsxWorkbook:  # noqa: D101
 
         with self.zf.open("xl/sharedStrings.xml") as io:
             must_be = False
+            phonetic = False
+            parts: list[str] = []
 
             def cell_sh(tag: str, _: dict[str, str]) -> None:
-                nonlocal must_be
+                nonlocal must_be, phonetic
                 if tag == "si":
-                    must_be = True
+                    parts.clear()
+                elif tag == "rPh":
+                    phonetic = True
+                elif tag == "t":
+                    must_be = not phonetic
 
             def cell_th(txt: str) -> None:
-                nonlocal must_be, ret
-                if must_be and (txt := txt.strip()):
-                    if self.null_values(txt):
-                        return
-                    ret.append(txt)
-                    must_be = False
+                if must_be:
+                    parts.append(txt)
 
             def cell_eh(tag: str) -> None:
-                nonlocal must_be
-                if tag == "si" and must_be:
-                    ret.append(None)  # type: ignore
-                    self.null_shared.add(str(len(ret) - 1))
+                nonlocal must_be, phonetic
+                if tag == "t":
                     must_be = False
+                elif tag == "rPh":
+                    phonetic = False
+                elif tag == "si":
+                    txt = "".join(parts).strip()
+                    if not txt or self.null_values(txt):
+                        ret.append(None)  # type: ignore
+                        self.null_shared.add(str(len(ret) - 1))
+                    else:
+                        ret.append(txt)
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From a8419aeb2d8102ae86cad209afa93a710858c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 10/30] fix: an xlsx cell value is all of its text, however the
 parser splits it

---
 rxls/reader/xlsx.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 64a3649..eda3d3b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -329,6 +329,8 @@ class XlsxWorkbook:  # noqa: D101
 
             l_tag: str | None = None
 
+            parts: list[str] = []
+
             # ? First row started event:
             row += 1
             if callback is not None:
@@ -360,6 +362,10 @@ class XlsxWorkbook:  # noqa: D101
                 l_tag = tag
                 # tags.append(l_tag := tag)
 
+            def cell_dh(txt: str) -> None:
+                if l_tag == "v":
+                    parts.append(txt)
+
             def cell_th(txt: str) -> None:
                 nonlocal \
                     o_q, \
@@ -423,6 +429,12 @@ class XlsxWorkbook:  # noqa: D101
                     if 0 < take_rows < row:
                         raise GeneratorExit
 
+                elif tag == "v" and l_tag == "v":
+                    # ? The parser may pass the text of one value in many parts
+                    cell_th("".join(parts))
+                    parts.clear()
+                    l_tag = "c"
+
                 elif tag == "c":
                     c_typ = 0
                     l_tag = None
@@ -430,7 +442,7 @@ class XlsxWorkbook:  # noqa: D101
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-            parser.CharacterDataHandler = cell_th
+            parser.CharacterDataHandler = cell_dh
             parser.buffer_text = True
 
             try:
-- 
2.43.0


From bae8a0c1877683aec5720265c432ab4f7e5bfae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 11/30] fix: an error while parsing an xlsx sheet reaches the
 caller

---
 rxls/reader/xlsx.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index eda3d3b..ac1ba9d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -462,9 +462,19 @@ class XlsxWorkbook:  # noqa: D101
         o_q: Queue[cell] = Queue()
         sentinel = object()
 
+        failures: list[BaseException] = []
+
+        def guarded(*args) -> None:
+            try:
+                worker(*args)
+            except BaseException as e:  # noqa: BLE001
+                failures.append(e)
+            finally:
+                o_q.put(sentinel)
+
         with self.zf.open(sheet_path) as io:
-            Thread(
-                target=worker,
+            thread = Thread(
+                target=guarded,
                 args=(
                     io,
                     self.styles,
@@ -478,6 +488,11 @@ class XlsxWorkbook:  # noqa: D101
                     sentinel,
                     row_callback,
                 ),
-            ).start()
+            )
+            thread.start()
 
             yield from iter(o_q.get, sentinel)
+
+            thread.join()
+            if failures:
+                raise failures[0]
-- 
2.43.0


From 04e18ff723b4bc17959b124238572fbad3bd59a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 12/30] fix: sheet targets may be absolute part names

---
 rxls/reader/xlsb.py | 3 +++
 rxls/reader/xlsx.py | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 1fadd26..6b2bc14 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -117,6 +117,9 @@ class XlsbWorkbook:  # noqa: D101
                     x.Target for x in wb_rels if x.Id == _sheet.strRelID.value
                 )
 
+                if sheet_file.startswith("xl//"):  # absolute target
+                    sheet_file = sheet_file[4:]
+
                 s_sheet_idx[_sheet.strName.value] = sheet_file
         return s_sheet_idx
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index ac1ba9d..0e99fb9 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -136,7 +136,11 @@ class XlsxWorkbook:  # noqa: D101
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
             for rel in wb_rels:
                 if rel.Type == "worksheet":
-                    rId_to_file[rel.Id] = f"xl/{rel.Target}"
+                    rId_to_file[rel.Id] = (
+                        rel.Target[1:]
+                        if rel.Target.startswith("/")
+                        else f"xl/{rel.Target}"
+                    )
 
         rId_to_name = {}  # noqa: N806
         with self.zf.open("xl/workbook.xml") as io:
-- 
2.43.0


From b10fa5dc9e2c0cb6d333449a8ac414dd80481e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 13/30] fix: a chart sheet does not make the other sheets of an
 xlsx workbook unreadable

---
 rxls/reader/xlsx.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 0e99fb9..40f7df0 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -135,12 +135,11 @@ class XlsxWorkbook:  # noqa: D101
         with self.zf.open("xl/_rels/workbook.xml.rels", "r") as io:
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
             for rel in wb_rels:
-                if rel.Type == "worksheet":
-                    rId_to_file[rel.Id] = (
-                        rel.Target[1:]
-                        if rel.Target.startswith("/")
-                        else f"xl/{rel.Target}"
-                    )
+                rId_to_file[rel.Id] = (
+                    rel.Target[1:]
+                    if rel.Target.startswith("/")
+                    else f"xl/{rel.Target}"
+                )
 
         rId_to_name = {}  # noqa: N806
         with self.zf.open("xl/workbook.xml") as io:
-- 
2.43.0


From 009f17389b481c4ff603f173eea5d8f5a30de011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 14/30] fix: xlsb number formats are decoded without their
 length, and only date formats are temporal

---
 rxls/reader/xlsb.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 6b2bc14..c34f815 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -164,7 +164,7 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: r.data[2:].decode("utf-16").split(";", 1)[0]
+                r.data[:2]: r.data[6:].decode("utf-16").split(";", 1)[0]
                 for r in scan_biff(io, {44})
             }
 
@@ -172,14 +172,16 @@ class XlsbWorkbook:  # noqa: D101
             for f_id, fmt in fms.items():
                 xf_ids = [x for x, y in xfs.items() if y == f_id]
                 if fmt == "0":
-                    ret.update(dict.fromkeys(xf_ids, 0x10))
-
                     continue
                 if re_dt.search(re_xt.sub("", fmt)):
                     ret.update(xf_ids)
 
             # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
-            ret.update((x for x, y in xfs.items() if y[0] in TEMPORAL_STYLES))
+            ret.update((
+                    x
+                    for x, y in xfs.items()
+                    if int.from_bytes(y, "little") in TEMPORAL_STYLES
+                ))
 
             return frozenset(ret)  # type: ignore
 
-- 
2.43.0


From 4d7e0b6d115da5e282be478a4fd003dc1d49838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 15/30] fix: an xlsx time format with fractions of a second is
 a date style

---
 rxls/reader/xlsx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 40f7df0..5d10c97 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -241,12 +241,12 @@ class XlsxWorkbook:  # noqa: D101
 
         for f_id, fmt in fms.items():
             xf_id = [x for x, y in xfs.items() if y == f_id]
-            if fmt == "0" or ".00" in fmt:
-                ret_numerics.update(xf_id)
-
-            elif re_dt.search(re_xt.sub("", fmt)):
+            if re_dt.search(re_xt.sub("", fmt)):
                 ret_temporal.update(xf_id)
 
+            elif fmt == "0" or ".00" in fmt:
+                ret_numerics.update(xf_id)
+
         ret_temporal.update(
             (
                 x
-- 
2.43.0


From aaf59e671c107b8686bdfde72d290621902ff5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 16/30] fix: wide strings are little-endian without a byte
 order mark, counted in code units

---
 rxls/biff_recs.py   | 9 +++++----
 rxls/reader/xlsb.py | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index defd16f..5118c0a 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -38,14 +38,15 @@ class xstr:
         (sz,) = u4_u(io.read(4))
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(io.read(sz * 2).decode("utf-16"))
+        return xstr(io.read(sz * 2).decode("utf-16-le"))
 
     def dump(self, io: IO[bytes]) -> int:
         if self.s is None:
             io.write(b"\xff\xff\xff\xff")
         elif self.s:
-            io.write(u4_p(len(self.s)))
-            io.write(self.s.encode("utf-16"))
+            b = self.s.encode("utf-16-le")
+            io.write(u4_p(len(b) // 2))
+            io.write(b)
         else:
             io.write(b"\x00\x00\x00\x00")
 
@@ -56,7 +57,7 @@ class xstr:
         (sz,) = u4_u(b[:4])
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(b[4 : 4 + sz * 2].decode("utf-16"))
+        return xstr(b[4 : 4 + sz * 2].decode("utf-16-le"))
 
     @staticmethod
     def from_string(s: str) -> xstr:
diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index c34f815..4c21122 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -137,7 +137,7 @@ class XlsbWorkbook:  # noqa: D101
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
                 if self.null_values(
-                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16"),
+                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16-le"),
                 )
                 else y
                 for i, r in enumerate(scan_biff(io, {19}))
@@ -164,7 +164,7 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: r.data[6:].decode("utf-16").split(";", 1)[0]
+                r.data[:2]: r.data[6:].decode("utf-16-le").split(";", 1)[0]
                 for r in scan_biff(io, {44})
             }
 
@@ -269,7 +269,7 @@ class XlsbWorkbook:  # noqa: D101
                 if r.rec_id in {6, 8}:
                     # NOTE: The slowest case, due to utf-16 encoding.
                     cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(
-                        "utf-16",
+                        "utf-16-le",
                     )
                     if self.null_values(cell_data):
                         continue
-- 
2.43.0


From d3de99247adc7973bd2c8579b031c7772b31b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 17/30] fix: a shared string index outside the table raises
 instead of reading stray memory

---
 rxls/chunk/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/arrow.py b/rxls/chunk/arrow.py
index 68915db..b882c8c 100644
--- a/rxls/chunk/arrow.py
+++ b/rxls/chunk/arrow.py
@@ -111,7 +111,7 @@ def and_(x: PaArray, y: PaValue, /) -> pa.BooleanArray:
     raise NotImplementedError
 
 
-@arrow_fn("array_take", pc.TakeOptions(boundscheck=False))
+@arrow_fn("array_take", pc.TakeOptions(boundscheck=True))
 def take(
     arr: MonoArray,
     indices: PaArray | list[int],
-- 
2.43.0


From 3cbc96da4f9cd5489f07af4c86865b0031652833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 18/30] fix: serial dates are rounded to the nearest
 millisecond

---
 rxls/chunk/casts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 3182876..fb44162 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -90,7 +90,7 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
     # NOTE 2: 25_569 - actual days for backward compatibility reason (for dates greater or equal to 1900-03-01)
     # NOTE 3: 86_400_000 - milliseconds per day
 
-    return (
+    return np.rint(
         (
             arr
             - (
@@ -98,7 +98,7 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
                 * (np.float64(25_569.0) - (arr < np.float64(60.0)))
             )
         )
-        * np.float64(86_400_000.0)
+        * np.float64(86_400_000.0),
     ).astype(np.int64)
 
 
@@ -282,7 +282,7 @@ if NUMBA_AVAILABLE:
             out[:] = (arr.astype(np.int32) << np.int32(2) | np.int32(2)).view(np.uint32)
 
         def __gu_f8_to_ms_win(arr: NDArray[np.float64], out: NDArray[np.int64]) -> None:
-            out[:] = (
+            out[:] = np.rint(
                 (
                     arr
                     - (
@@ -290,7 +290,7 @@ if NUMBA_AVAILABLE:
                         * (np.float64(25_569.0) - (arr < np.float64(60.0)))
                     )
                 )
-                * np.float64(86_400_000.0)
+                * np.float64(86_400_000.0),
             ).astype(np.int64)
 
         def __gu_ms_to_f8_win(arr: NDArray[np.int64], out: NDArray[np.float64]) -> None:
-- 
2.43.0


From 2fb5b997cd0fd149fe63c6a88d7114c2d473d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 19/30] fix: a column with values outside the 64-bit range is
 not an integer column

---
 rxls/chunk/casts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index fb44162..e5c5fca 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -177,7 +177,10 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
         Is rounded input potentially integer array, or not
 
     """
-    return ~np.any(np.trunc(arr) != np.round(arr, int_threshold))
+    return ~np.any(
+        (np.trunc(arr) != np.round(arr, int_threshold))
+        | ~(np.abs(arr) < np.float64(2.0**63)),
+    )
 
 
 def dt_has_t(arr: NDArray[np.int64]) -> np.bool_:
-- 
2.43.0


From 359e1f8c0f6276e7bbcff1cb9875ca8f0718d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 20/30] fix: text timestamps keep their date, and unparsed text
 is told apart from the epoch

---
 rxls/chunk/casts.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index e5c5fca..aacfee3 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -19,6 +19,7 @@ __all__ = [
     "rk_to_f8",
 ]
 
+import re
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -606,6 +607,9 @@ def _unsafe_strings_to_array(
 
 _unsafe_strings_to_array = np.fromiter  # type: ignore
 
+NOT_PARSED = np.int64(np.iinfo(np.int64).min)
+YEAR_1000 = np.int64(-30_610_224_000_000)  # years have four digits, or are %y
+
 if POLARS_AVAILABLE:
     import polars as pl
 
@@ -629,13 +633,19 @@ if POLARS_AVAILABLE:
             NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
 
         """
-        ret = _unsafe_array(
+        parsed = (
             pl.from_arrow(arr)
             .str.strptime(pl.Datetime("ms"), format, strict=False)  # type: ignore
-            .to_arrow(),
-            np.int64,
+            .to_arrow()
+        )
+        ret = _unsafe_array(parsed, np.int64)
+        if re.search("%[^HIMSTRXprnfz.3%]", format) is None:  # time of day
+            ret = ret % np.int64(86_400_000)
+        return np.where(
+            parsed.is_valid().to_numpy(zero_copy_only=False) & (ret >= YEAR_1000),
+            ret,
+            NOT_PARSED,
         )
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
 
 else:
     DEFAULT_TIME_FORMATS: tuple[str, ...] = (
@@ -659,8 +669,15 @@ else:
             NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
 
         """
-        ret = _unsafe_array(strptime(arr, format, "ms", True), np.int64)
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
+        parsed = strptime(arr, format, "ms", True)
+        ret = _unsafe_array(parsed, np.int64)
+        if re.search("%[^HIMSTRXprn%]", format) is None:  # time of day
+            ret = ret % np.int64(86_400_000)
+        return np.where(
+            parsed.is_valid().to_numpy(zero_copy_only=False) & (ret >= YEAR_1000),
+            ret,
+            NOT_PARSED,
+        )
 
 
 DEFAULT_DATE_FORMATS: tuple[str, ...] = (
@@ -725,7 +742,7 @@ def mf_strptime(
         If one or more values cannot be recognized as temporal, using given formats.
 
     """
-    result = np.repeat(np.int64(0), len(arr))
+    result = np.repeat(NOT_PARSED, len(arr))
 
     if not formats:
         formats = (
@@ -735,11 +752,11 @@ def mf_strptime(
         )
 
     for format in formats:
-        result = np.where(result == 0, _strptime(arr, format), result)
+        result = np.where(result == NOT_PARSED, _strptime(arr, format), result)
 
-        if np.all(result > np.int64(0)):
+        if np.all(result != NOT_PARSED):
             return result
 
-    if strict and np.any(result == 0):
+    if strict and np.any(result == NOT_PARSED):
         raise pa.ArrowInvalid
-    return result
+    return np.where(result == NOT_PARSED, np.int64(0), result)
-- 
2.43.0


From 84baa678b3e06005f87b1abb48774f7059583975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 21/30] fix: shared strings can be converted to timestamps

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index ddc047e..aaeb844 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -245,7 +245,7 @@ class chunk:  # noqa: D101, N801
                 return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
             return chunk(self.data, self.type | REPR_TEMPORAL)
         return chunk(
-            mf_strptime(self.data, formats),  # type: ignore
+            mf_strptime(self.prepare().data, formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
         )  # type: ignore
 
-- 
2.43.0


From 6a63d735cb33756446ac244a3ef9f3d96be34d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 22/30] fix: a failed conflict resolution leaves the cells as
 they were

---
 rxls/chunk/chunk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index aaeb844..bdca044 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -459,6 +459,9 @@ class chunk:  # noqa: D101, N801
         if offset or length or index is not None:
             chunks = chunk.take_over(chunks, offset, length, index)
 
+        unresolved = chunks
+        chunks = list(chunks)
+
         temp_idx = []
         nums_idx = []
         utf8_idx = []
@@ -507,6 +510,7 @@ class chunk:  # noqa: D101, N801
                 utf8_fallback = True
 
         if utf8_fallback:
+            chunks = unresolved
             dtype = UTF8
         elif temp_idx:
             dtype = T_MS
-- 
2.43.0


From 28fa6b9794acd53e80a76a610b6f7f792c77d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 23/30] fix: a sheet with a header and no data rows gives empty
 columns

---
 rxls/chunk/chunk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index bdca044..b468519 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -538,4 +538,5 @@ class chunk:  # noqa: D101, N801
 
         return pa.chunked_array(
             [x.arrow(dest_dtype=dtype) for x in chunks],  # type: ignore
+            type=dtype,
         ).combine_chunks()  # type: ignore
-- 
2.43.0


From d3d681cf7ffdd5c3af37f00395ea060896b2680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 24/30] fix: requested dtypes are compared with their
 parameters

---
 rxls/reader/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 5f40c66..c0ce064 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -299,7 +299,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     if dtypes is not None:  # noqa: PLR1702
         if isinstance(dtypes, pa.DataType):
             for i in range(len(arrays)):
-                if arrays[i].type.id != dtypes.id:  # type: ignore
+                if arrays[i].type != dtypes:
                     try:
                         arrays[i] = arrays[i].cast(dtypes)
                     except Exception:  # noqa: BLE001
@@ -311,7 +311,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             for i, col in enumerate(header):
                 if col in dtypes:
                     dtype = dtypes[col]
-                    if arrays[i].type.id != dtype.id:
+                    if arrays[i].type != dtype:
                         try:
                             arrays[i] = arrays[i].cast(dtype)
                         except Exception:  # noqa: BLE001
@@ -327,7 +327,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                 )
 
             for i, dtype in enumerate(dtypes):
-                if arrays[i].type.id != dtype.id:
+                if arrays[i].type != dtype:
                     try:
                         arrays[i] = arrays[i].cast(dtype)
                     except Exception:  # noqa: BLE001
-- 
2.43.0


From dc76c996d68e144cfb1d297d3d05d821fbc29bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 25/30] fix: errors of the caller's callbacks are not mistaken
 for a closed file

---
 rxls/reader/xlsx.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 5d10c97..5571519 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -450,11 +450,8 @@ class XlsxWorkbook:  # noqa: D101
 
             try:
                 parser.ParseFile(io)
-            except ValueError as e:
-                if e.args[0] != "read from closed file.":
-                    raise
-            except AttributeError as e:
-                if e.args[0] != "'NoneType' object has no attribute 'tell'":
+            except (ValueError, AttributeError):
+                if not io.closed:
                     raise
             except GeneratorExit:
                 pass
-- 
2.43.0


From 68c02524c9bd87b1f0d8a411a618fb9a0d0744b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 26/30] fix: time-only formats with %k, %l, %t, %E and escaped
 percent signs give times on 1970-01-01

---
 rxls/chunk/casts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index aacfee3..79f5456 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -671,7 +671,7 @@ else:
         """
         parsed = strptime(arr, format, "ms", True)
         ret = _unsafe_array(parsed, np.int64)
-        if re.search("%[^HIMSTRXprn%]", format) is None:  # time of day
+        if re.fullmatch("([^%]|%[EO]?[HIMSTRXprkltnzZ%])*", format):  # time of day
             ret = ret % np.int64(86_400_000)
         return np.where(
             parsed.is_valid().to_numpy(zero_copy_only=False) & (ret >= YEAR_1000),
-- 
2.43.0


From 67c94d2c3c387333545fe080e1f1f23c0d7fafa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 27/30] fix: number formats: escaped characters and section
 breaks inside quotes

---
 rxls/reader/xlsb.py | 5 +++--
 rxls/reader/xlsx.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 4c21122..8140fdf 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -32,7 +32,8 @@ if TYPE_CHECKING:
     from typing_extensions import Self
 
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_xt = re.compile(r'(?:\\.)|(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])', re.DOTALL)
+re_s1 = re.compile(r'(?:\\.|".*?"|\[[^\]]*\]|[^;])*', re.DOTALL)
 
 ERROR_STRINGS = frozenset(
     x
@@ -164,7 +165,7 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: r.data[6:].decode("utf-16-le").split(";", 1)[0]
+                r.data[:2]: re_s1.match(r.data[6:].decode("utf-16-le"))[0]
                 for r in scan_biff(io, {44})
             }
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 5571519..3daf926 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -35,7 +35,8 @@ if TYPE_CHECKING:
     T = TypeVar("T")
 
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_xt = re.compile(r'(?:\\.)|(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])', re.DOTALL)
+re_s1 = re.compile(r'(?:\\.|".*?"|\[[^\]]*\]|[^;])*', re.DOTALL)
 
 re_date = re.compile(r"[ydYD]")
 re_time = re.compile(r"[hsHS]")
@@ -227,7 +228,7 @@ class XlsxWorkbook:  # noqa: D101
                 nonlocal xfs, fms, xfs_id
 
                 if tag == "numFmt":
-                    fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
+                    fms[attrs["numFmtId"]] = re_s1.match(attrs["formatCode"])[0]
 
                 elif tag == "xf" and "xfId" in attrs:
                     xfs[str(xfs_id)] = attrs["numFmtId"]
-- 
2.43.0


From 15c315625af0b005899d5a6b4806f39891a3ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 28/30] fix: XLSX styles: only numFmts and cellXfs describe the
 cells

---
 rxls/reader/xlsx.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 3daf926..e82d231 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -222,15 +222,20 @@ class XlsxWorkbook:  # noqa: D101
 
         fms: dict[str, str] = {}
 
+        section = ""
+
         with self.zf.open("xl/styles.xml") as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal xfs, fms, xfs_id
+                nonlocal xfs, fms, xfs_id, section
+
+                if tag in {"numFmts", "cellXfs", "cellStyleXfs", "dxfs"}:
+                    section = tag
 
-                if tag == "numFmt":
+                elif tag == "numFmt" and section == "numFmts":
                     fms[attrs["numFmtId"]] = re_s1.match(attrs["formatCode"])[0]
 
-                elif tag == "xf" and "xfId" in attrs:
+                elif tag == "xf" and section == "cellXfs":
                     xfs[str(xfs_id)] = attrs["numFmtId"]
                     xfs_id += 1
 
-- 
2.43.0


From 21cea7412cb602b4743dc75e30f9418ad819e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 29/30] fix: XLSX styles: a custom date format of a built-in
 number format's id is a date

---
 rxls/reader/xlsx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index e82d231..8b2a256 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -269,8 +269,8 @@ class XlsxWorkbook:  # noqa: D101
             ),
         )
 
-        ret = dict.fromkeys(ret_temporal, TYPE_NUMERIC | REPR_TEMPORAL)
-        ret.update(dict.fromkeys(ret_numerics, TYPE_NUMERIC))
+        ret = dict.fromkeys(ret_numerics, TYPE_NUMERIC)
+        ret.update(dict.fromkeys(ret_temporal, TYPE_NUMERIC | REPR_TEMPORAL))
         return ret
 
     def iter_worksheet(
-- 
2.43.0


From 8a2d18b9ed3e87502ec237df2961937ad659b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:02 +0000
Subject: [PATCH 30/30] fix: a shared string index beyond 32 bits raises
 instead of wrapping around

---
 rxls/chunk/chunk.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index b468519..a97aea4 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -131,10 +131,8 @@ class chunk:  # noqa: D101, N801
             if shareds is None:
                 shareds = EMPTY_SHAREDS
             return chunk(
-                _unsafe_arrow(
-                    _unsafe_strings_to_array(data, np.uint32, data_len),
-                    UI_4,
-                ),
+                # ! Safe cast: an index must not wrap around into the table
+                pa.array(_unsafe_strings_to_array(data, np.int64, data_len)).cast(UI_4),
                 TYPE_STRING | REPR_SHARED,
                 data_len,
                 shareds,
-- 
2.43.0

