From 81de56975035fb981a6675ef1f3307efcaabbb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:38 +0000
Subject: [PATCH 01/25] fix: do not list a heading on the last line of an
 unclosed code fence

---
 md_toc/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4f13ad..de29a65 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -321,6 +321,7 @@ def build_toc(
             f.seek(file_pointer_pos)
 
         # Code fence detection.
+        is_code_line: bool = is_within_code_fence
         if is_within_code_fence:
             is_within_code_fence = not is_closing_code_fence(
                 line,
@@ -334,7 +335,10 @@ def build_toc(
                 # Update the status of the next line.
                 is_within_code_fence = True
 
-        if not is_within_code_fence or code_fence is None:
+        # The line which ends a code block, either because it is the closing
+        # code fence or because it is the last one of the document, is still
+        # part of that code block.
+        if not is_code_line and not is_within_code_fence:
 
             # Header detection and gathering.
             headers: list[types.Header] = get_md_header(
-- 
2.43.0


From b4821ed68e73373915fdcb9f6daeaf5624436548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:49 +0000
Subject: [PATCH 02/25] fix: write and compare TOCs correctly when the newline
 string is CR or CRLF

---
 md_toc/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index de29a65..8fda30c 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -61,6 +61,8 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     tocs_equal: bool = False
     r: tuple = generic._get_existing_toc(filename, marker)
     old_toc: str = r[0]
+    # The existing TOC was read with universal newlines.
+    current_toc = current_toc.replace('\r\n', '\n').replace('\r', '\n')
     if current_toc.strip() == old_toc:
         tocs_equal = True
     return tocs_equal
@@ -92,11 +94,13 @@ def write_string_on_file_between_markers(
     if filename == '-':
         raise StdinIsNotAFileToBeWritten
 
+    # Line feeds are translated into newline_string when the file is written
+    # and the existing TOC is read with universal newlines.
+    string = string.replace('\r\n', '\n').replace('\r', '\n')
+
     # TOC that is written to the file.
-    final_toc_string: str = ''.join([
-        marker, newline_string, newline_string,
-        string.rstrip(), newline_string, newline_string, marker, newline_string
-    ])
+    final_toc_string: str = ''.join(
+        [marker, '\n\n', string.rstrip(), '\n\n', marker, '\n'])
 
     (
         old_toc,
-- 
2.43.0


From 91ad6b12962f7c52eb5005a3a1083e30caf7b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 03/25] fix: avoid crashes and endless loops on headings which
 contain square brackets

---
 md_toc/cmark/buffer_c.py  | 3 ++-
 md_toc/cmark/inlines_c.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/buffer_c.py b/md_toc/cmark/buffer_c.py
index fe71de4..86de2fe 100644
--- a/md_toc/cmark/buffer_c.py
+++ b/md_toc/cmark/buffer_c.py
@@ -330,7 +330,8 @@ def _cmark_cmark_strbuf_unescape(buf: _cmarkCmarkStrbuf):
     #     while r < len(buf.ptr)
     #
     while r < len(buf.ptr):
-        if buf.ptr[r] == '\\' and _cmark_cmark_ispunct(ord(buf.ptr[r + 1])):
+        if buf.ptr[r] == '\\' and r + 1 < len(
+                buf.ptr) and _cmark_cmark_ispunct(ord(buf.ptr[r + 1])):
             r += 1
 
         #     buf->ptr[w+] = buf->ptr[r];
diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index d61b571..97d4c23 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -404,6 +404,9 @@ def _cmark_peek_char(subj: _cmarkSubject) -> int:
 
 # 0.29, 0.30
 def _cmark_peek_at(subj: _cmarkSubject, pos: int) -> int:
+    # C strings are NULL terminated.
+    if pos >= len(subj.input.data):
+        return 0
     return ord(subj.input.data[pos])
 
 
@@ -1230,7 +1233,7 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
         return 0
 
     c = chr(_cmark_peek_char(subj))
-    while c and c != '[' and c != ']':
+    while not _cmark_is_eof(subj) and c != '[' and c != ']':
         if c == '\\':
             _cmark_advance(subj)
             length += 1
@@ -1242,9 +1245,9 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
             length += 1
 
         # MAX_LINK_LABEL_LENGTH is defined as 1000 while
-        # parser['cmark']['link']['max chars label'] is defined as 999.
+        # parser['cmark']['link']['max_chars_label'] is defined as 999.
         #     if (length > MAX_LINK_LABEL_LENGTH) {
-        if length > md_parser['cmark']['link']['max chars label'] + 1:
+        if length > md_parser['cmark']['link']['max_chars_label'] + 1:
             no_match = True
 
         c = chr(_cmark_peek_char(subj))
-- 
2.43.0


From ea01cd6a16db48aa02365390de54309bd0c2197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:39 +0000
Subject: [PATCH 04/25] fix: do not crash on U+0100 when removing emphasis

---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 97d4c23..c46cae9 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2048,8 +2048,8 @@ def _cmark_subject_find_special_char(subj: _cmarkSubject, options: int) -> int:
         # Patch to avoid overflow problems.
         # FIXME: this should not be needed!
         # These two are not present in the original C source code.
-        if (ord(subj.input.data[n]) > len(SPECIAL_CHARS)
-                or ord(subj.input.data[n]) > len(SMART_PUNCT_CHARS)):
+        if (ord(subj.input.data[n]) >= len(SPECIAL_CHARS)
+                or ord(subj.input.data[n]) >= len(SMART_PUNCT_CHARS)):
             return n
 
         if SPECIAL_CHARS[ord(subj.input.data[n])] == 1:
-- 
2.43.0


From 0f1cbbc3c3d7ed5fb6075a7e8524cb9700d5fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:41 +0000
Subject: [PATCH 05/25] fix: detect flanking delimiters next to U+0080 to
 U+00BF characters

---
 md_toc/cmark/inlines_c.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index c46cae9..6cd9f87 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -645,11 +645,8 @@ def _cmark_scan_delims(subj: _cmarkSubject, c: str) -> tuple:
         before_char = 10
     else:
         before_char_pos = subj.pos - 1
-        # walk back to the beginning of the UTF_8 sequence
-        while _cmark_peek_at(
-                subj, before_char_pos) >> 6 == 2 and before_char_pos > 0:
-            before_char_pos -= 1
-
+        # There is no need to walk back to the beginning of the UTF-8
+        # sequence: Python strings are made of code points.
         length, before_char = _cmark_cmark_utf8proc_iterate(
             subj.input.data[before_char_pos:],
             subj.pos - before_char_pos,
-- 
2.43.0


From fb1af77d6bfd59ada0c7baf197dfa942a0eaa92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:42 +0000
Subject: [PATCH 06/25] fix: recognise URI autolinks when removing emphasis

---
 md_toc/cmark/scanners_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index b40d7c9..9fef527 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -113,7 +113,8 @@ def _cmark__scan_spacechars(ptr: str, p: int) -> int:
 
 # Try to match URI autolink after first <, returning number of chars matched.
 def _cmark__scan_autolink_uri(ptr: str, p: int) -> int:
-    return _common_scan('[:][^\x00-\x20<>]*[>]', ptr, p)
+    return _common_scan(
+        '[A-Za-z][A-Za-z0-9.+-]{1,31}[:][^\x00-\x20<>]*[>]', ptr, p)
 
 
 # Try to match email autolink after first <, returning num of chars matched.
-- 
2.43.0


From 11927cbf7a7d1284471a1cb17c5606b4c449808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:10 +0000
Subject: [PATCH 07/25] fix: compute the visibility of each heading
 independently

---
 md_toc/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 8fda30c..05a38c9 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1131,7 +1131,7 @@ def get_atx_heading(
         raise ValueError
 
     struct: list[types.AtxHeadingStructElement] = list()
-    line_visible: bool = True
+    line_visible: bool
 
     if len(line) == 0:
         return [{
@@ -1143,6 +1143,7 @@ def get_atx_heading(
     for subl in replace_and_split_newlines(line):
         current_headers = None
         final_line = None
+        line_visible = True
 
         if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
 
@@ -1177,7 +1178,7 @@ def get_atx_heading(
             # We need to continue parsing to find possible duplicate headers
             # in other functions if we set keep_header_levels < max_levels.
             if i - offset > keep_header_levels:
-                line_visible: bool = False
+                line_visible = False
 
             current_headers = i - offset
 
-- 
2.43.0


From cee6892c250b4f7613263c9c1bdb9ddd88f3634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:11 +0000
Subject: [PATCH 08/25] fix: respect the maximum header level with redcarpet

---
 md_toc/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 05a38c9..74dd31c 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1322,6 +1322,9 @@ def get_atx_heading(
                 i += 1
             current_headers = i
 
+            if current_headers > keep_header_levels:
+                line_visible = False
+
             if i < len(subl) and subl[i] != ' ':
                 continue
 
-- 
2.43.0


From 49af221e0357d47d3d521b1b36c342013eb0c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:14 +0000
Subject: [PATCH 09/25] fix: detect link labels made of mixed whitespace
 characters as empty

---
 md_toc/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 74dd31c..eda2ea5 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1269,9 +1269,8 @@ def get_atx_heading(
                 if len(final_line) > 0 and final_line[-1] == '\u005c':
                     final_line = ''.join([final_line, ' '])
                 if len(
-                        final_line.strip('\u0020').strip('\u0009').strip(
-                            '\u000a').strip('\u000b').strip('\u000c').strip(
-                                '\u000d'), ) == 0:
+                        final_line.strip(
+                            '\u0020\u0009\u000a\u000b\u000c\u000d'), ) == 0:
                     raise GithubEmptyLinkLabel
                 if len(final_line,
                        ) > md_parser['github']['link']['max_chars_label']:
-- 
2.43.0


From 3b253a5228983d2f1d5e400260d194a1d303fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:15 +0000
Subject: [PATCH 10/25] fix: remove HTML declarations and CDATA sections from
 anchor links

---
 md_toc/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index eda2ea5..9cc4145 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -977,11 +977,11 @@ def build_anchor_link(
         raise StringCannotContainNewlines
 
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
-        header_text_trimmed = header_text_trimmed.lower()
-
         # Filter HTML tags.
         header_text_trimmed = remove_html_tags(header_text_trimmed, parser)
 
+        header_text_trimmed = header_text_trimmed.lower()
+
         # Filter "emphasis and strong emphasis".
         header_text_trimmed = remove_emphasis(header_text_trimmed, parser)
 
-- 
2.43.0


From 5d017479f0152275fad0af6e0341fbd66ac47acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:17 +0000
Subject: [PATCH 11/25] fix: enforce the ordered list marker limit with
 goldmark

---
 md_toc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 9cc4145..13d153a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -554,7 +554,7 @@ def increase_index_ordered_list(
 
     header_type_count['h' + str(header_type_curr)] += 1
 
-    if parser in ['github', 'cmark', 'gitlab', 'commonmarker']:
+    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         if header_type_count['h' + str(header_type_curr)] > md_parser[
                 'github']['list']['ordered']['max_marker_number']:
             raise GithubOverflowOrderedListMarker
-- 
2.43.0


From 7638ed765783b6ffd418c3f71a5a09ead35311a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:18 +0000
Subject: [PATCH 12/25] fix: do not let the space after a trailing backslash
 leak in the anchor link

---
 md_toc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 13d153a..ba43634 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1410,7 +1410,8 @@ def get_md_header(
             r['header_text_trimmed'],
             'text_anchor_link':
             build_anchor_link(
-                r['header_text_trimmed'],
+                # Ignore the space which escapes a trailing backslash.
+                r['header_text_trimmed'].rstrip(' '),
                 header_duplicate_counter,
                 parser,
             ),
-- 
2.43.0


From 86a68852717385a248b4f0ebec25f5913e1f234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 13/25] fix: skip HTML tags and entities in redcarpet anchor
 links

---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index ba43634..a4ce33a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1028,7 +1028,8 @@ def build_anchor_link(
         inserted = 0
         stripped = 0
         header_text_trimmed_middle_stage = list()
-        for i in range(0, header_text_trimmed_len):
+        i = 0
+        while i < header_text_trimmed_len:
             if header_text_trimmed[i] == '<':
                 while i < header_text_trimmed_len and header_text_trimmed[
                         i] != '>':
@@ -1049,6 +1050,7 @@ def build_anchor_link(
                     header_text_trimmed[i].lower(), )
                 stripped = 0
                 inserted += 1
+            i += 1
 
         header_text_trimmed_middle_stage_str: str = ''.join(
             header_text_trimmed_middle_stage)
-- 
2.43.0


From 5a640140c7b1d844bbb80e499c2bee594e6a278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:08 +0000
Subject: [PATCH 14/25] fix: compute redcarpet anchor hashes on bytes with 64
 bit integers

---
 md_toc/api.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4ce33a..5b4c06d 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1060,15 +1060,11 @@ def build_anchor_link(
 
         if inserted == 0 and header_text_trimmed_len > 0:
             hash: int = 5381
-            for i in range(0, header_text_trimmed_len):
-                # Get the unicode representation with ord.
-                # Unicode should be equal to ASCII in ASCII's range of
-                # characters.
-                hash = ((hash << 5) + hash) + ord(header_text_trimmed[i])
-
-            # This is equivalent to %x in C. In Python we don't have
-            # the length problem so %x is equal to %lx in this case.
-            # Apparently there is no %l in Python...
+            for byte in header_text_trimmed.encode('UTF-8'):
+                # In C the hash is an unsigned long.
+                hash = ((hash << 5) + hash + byte) & 0xFFFFFFFFFFFFFFFF
+
+            # This is equivalent to %lx in C.
             header_text_trimmed_middle_stage_str = 'part-' + '{:x}'.format(
                 hash)
 
-- 
2.43.0


From 84fea354a539bf60d34b8e75b08313d7c11bf73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:09 +0000
Subject: [PATCH 15/25] fix: keep permissions and symbolic links when writing
 in place

---
 md_toc/api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 5b4c06d..719e549 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -26,6 +26,7 @@ import copy
 import hashlib
 import os
 import re
+import stat
 import sys
 import typing
 
@@ -94,6 +95,11 @@ def write_string_on_file_between_markers(
     if filename == '-':
         raise StdinIsNotAFileToBeWritten
 
+    # The file is replaced by a new one: do not replace symbolic links and
+    # keep the original permissions.
+    filename = os.path.realpath(filename)
+    mode: int = stat.S_IMODE(os.stat(filename).st_mode)
+
     # Line feeds are translated into newline_string when the file is written
     # and the existing TOC is read with universal newlines.
     string = string.replace('\r\n', '\n').replace('\r', '\n')
@@ -132,6 +138,7 @@ def write_string_on_file_between_markers(
             append=False,
             newline_character=newline_string,
         )
+        os.chmod(filename, mode)
 
     return equal
 
-- 
2.43.0


From 987c8011277757e8125c7bb7e1563be70d316a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 16/25] fix: remove emphasis delimiter runs which both close
 and open emphasis

---
 md_toc/cmark/inlines_c.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 6cd9f87..924e583 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -135,7 +135,8 @@ class _cmarkDelimiter:
         'delim_char',
         'can_open',
         'can_close',
-        'offset',
+        'opener_offset',
+        'closer_offset',
     ]
 
     def __init__(self):
@@ -147,8 +148,10 @@ class _cmarkDelimiter:
         self.can_open: bool = False
         self.can_close: bool = False
 
-        # Extra attribute.
-        self.offset: int = 0
+        # Extra attributes: the number of characters already used at the end
+        # of the run, as opener, and at its start, as closer.
+        self.opener_offset: int = 0
+        self.closer_offset: int = 0
 
 
 class _cmarkBracket:
@@ -1018,16 +1021,16 @@ def _cmark_remove_emph(subj: _cmarkSubject, opener: _cmarkDelimiter,
     #############
 
     # Custom variables and computations.
-    opener_relative_start = opener_inl.end_column - use_delims - opener.offset
-    opener_relative_end = opener_inl.end_column - opener.offset
-    closer_relative_start = closer_inl.start_column + closer.offset - 1
-    closer_relative_end = closer_inl.start_column + use_delims + closer.offset - 1
+    opener_relative_start = opener_inl.end_column - use_delims - opener.opener_offset
+    opener_relative_end = opener_inl.end_column - opener.opener_offset
+    closer_relative_start = closer_inl.start_column + closer.closer_offset - 1
+    closer_relative_end = closer_inl.start_column + use_delims + closer.closer_offset - 1
 
     ignore.append(range(opener_relative_start, opener_relative_end))
     ignore.append(range(closer_relative_start, closer_relative_end))
 
-    opener.offset += use_delims
-    closer.offset += use_delims
+    opener.opener_offset += use_delims
+    closer.closer_offset += use_delims
 
     # if opener has 0 characters, remove it and its associated inline
     if opener_num_chars == 0:
-- 
2.43.0


From a432548ecc5b65564563c917adfc605b5009c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:30 +0000
Subject: [PATCH 17/25] fix: look for all the possible openers of underscore
 emphasis

---
 md_toc/cmark/inlines_c.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 924e583..c9e757a 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -879,6 +879,11 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
         stack_bottom,
         stack_bottom,
         stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
     ]
 
     # move back to first relevant delim.
@@ -892,10 +897,11 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
                 openers_bottom_index = 0
             elif closer.delim_char == '\'':
                 openers_bottom_index = 1
-            elif closer.delim_char == '_':
-                openers_bottom_index = 2
-            elif closer.delim_char == '*':
-                openers_bottom_index = 3
+            elif closer.delim_char in ['_', '*']:
+                if closer.delim_char == '_':
+                    openers_bottom_index = 2
+                else:
+                    openers_bottom_index = 8
                 if closer.can_open:
                     openers_bottom_index += 3
                 else:
-- 
2.43.0


From 59d304e322b3d10526c7435ca77cd885ccd3ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 18/25] fix: find code spans which follow an unmatched run of
 backticks

---
 md_toc/cmark/inlines_c.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index c9e757a..fa8122d 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -558,8 +558,9 @@ def _cmark_scan_to_closing_backticks(subj: _cmarkSubject,
             numticks += 1
 
         # store position of ender
-        # Ender starting point.
-        if numticks <= MAXBACKTICKS:
+        # Ender starting point. Once the whole input has been scanned the
+        # positions of the last enders are known and must be kept.
+        if numticks <= MAXBACKTICKS and not subj.scanned_for_backticks:
             subj.backticks[numticks] = subj.pos - numticks
 
         if numticks == openticklength:
-- 
2.43.0


From aa5e63f587d840a76b77caa43b7cae22fa9778a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:09 +0000
Subject: [PATCH 19/25] fix: keep the text of headings such as '# # #'

---
 md_toc/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 719e549..fa8d08a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1267,6 +1267,11 @@ def get_atx_heading(
                     if i > hash_round_start:
                         hash_char_rounds += 1
 
+            # The significant part of the string is made of hashes only: just
+            # the last sequence of hashes is the closing one.
+            if go and hash_char_rounds > 1:
+                cs_end = len_subl - hash_round_start
+
             final_line = subl[cs_start:cs_end]
 
             # Add escaping.
-- 
2.43.0


From 93649f2663c8617731692260edd34ea294e402d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:19 +0000
Subject: [PATCH 20/25] fix: recognise binary files when lines are skipped

---
 md_toc/api.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index fa8d08a..f4a5aa7 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -289,15 +289,15 @@ def build_toc(
         list_marker = md_parser[parser]['list']['ordered'][
             'default_closing_marker']
 
-    if skip_lines > 0:
-        loop: bool = True
-        line_counter = 1
-        while loop:
-            if line_counter > skip_lines or f.readline() == '':
-                loop = False
-            line_counter += 1
-
     try:
+        if skip_lines > 0:
+            loop: bool = True
+            line_counter = 1
+            while loop:
+                if line_counter > skip_lines or f.readline() == '':
+                    loop = False
+                line_counter += 1
+
         line = f.readline()
     except UnicodeDecodeError:
         return ''.join(
-- 
2.43.0


From b2e88aed69f62474c738c752247712cbfc0a0bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:41 +0000
Subject: [PATCH 21/25] fix: remove HTML comments which are very short or
 contain '>' from anchor links

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index f624ce3..1ac30f6 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -120,7 +120,7 @@ parser: dict = {
 
             # 3. HTML comment.
             'COS': '<!--',
-            'COT': '((?!>|->)(?:(?!--).))+(?!-).?',
+            'COT': '((?!>|->)(?:(?!--).)*[^-])?',
             'COE': '-->',
 
             # 4. Processing instructions.
-- 
2.43.0


From b1af54a01bb6eca64dfd91505acca7260d21b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 22/25] fix: remove closing HTML tags with more than one
 whitespace from github anchor links

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 1ac30f6..f8ab75b 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -273,7 +273,7 @@ parser['github']['re'].update({
      ')*' + '(' + parser['github']['re']['WS'] + ')*' + '(/)?' + '>'),
     # 2. Close tag.
     'CT': ('</' + parser['github']['re']['TN'] + parser['github']['re']['WS'] +
-           '?' + '>'),
+           '*' + '>'),
     # 5. Declarations.
     'DE': (parser['github']['re']['DES'] + parser['github']['re']['DEN'] +
            parser['github']['re']['DEW'] + parser['github']['re']['DEB'] +
-- 
2.43.0


From 6c857a023a151efa0a1586a2ff3ed22f3b6e09b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:34 +0000
Subject: [PATCH 23/25] fix: recognise all the line endings when reading from
 standard input

---
 md_toc/api.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index f4a5aa7..5f626b0 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import copy
 import hashlib
+import io
 import os
 import re
 import stat
@@ -263,6 +264,14 @@ def build_toc(
 
     if filename == '-':
         f = sys.stdin
+        # Like regular files (see below), standard input needs the universal
+        # newlines mode, which is not enabled by default.
+        if isinstance(f, io.TextIOWrapper):
+            try:
+                f.reconfigure(newline=None)
+            except io.UnsupportedOperation:
+                # Something has already been read.
+                pass
     else:
         # When reading input from the stream,
         # if newline is None, universal newlines mode is enabled.
-- 
2.43.0


From 118d0a4ee313ca92898c9738770a1f47a43a5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:35 +0000
Subject: [PATCH 24/25] fix: recognise binary data on standard input in the C
 and POSIX locales

---
 md_toc/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 5f626b0..9cf7273 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -265,10 +265,11 @@ def build_toc(
     if filename == '-':
         f = sys.stdin
         # Like regular files (see below), standard input needs the universal
-        # newlines mode, which is not enabled by default.
+        # newlines mode, which is not enabled by default. Undecodable bytes
+        # must be an error in all the locales.
         if isinstance(f, io.TextIOWrapper):
             try:
-                f.reconfigure(newline=None)
+                f.reconfigure(errors='strict', newline=None)
             except io.UnsupportedOperation:
                 # Something has already been read.
                 pass
-- 
2.43.0


From a00b8f3105357ad3e5a76f47a1bd09f4263ec123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:19 +0000
Subject: [PATCH 25/25] fix: do not alter the list of files passed to
 build_multiple_tocs

---
 md_toc/api.py | 3 ++-
 md_toc/cli.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 9cf7273..9d1e027 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -517,7 +517,8 @@ def build_multiple_tocs(
         supported ordered list markers.
     """
     if len(filenames) == 0:
-        filenames.append('-')
+        # Do not alter the list of the caller.
+        filenames = ['-']
     return [
         build_toc(
             filenames[file_id],
diff --git a/md_toc/cli.py b/md_toc/cli.py
index 3455b9a..e36f72b 100644
--- a/md_toc/cli.py
+++ b/md_toc/cli.py
@@ -67,8 +67,11 @@ class CliToApi():
         if newline_string == r'\r\n':
             newline_string = '\r\n'
 
+        # Standard input.
+        filenames = args.filename or ['-']
+
         toc_struct = build_multiple_tocs(
-            filenames=args.filename,
+            filenames=filenames,
             ordered=ordered,
             no_links=args.no_links,
             no_indentation=args.no_indentation,
@@ -85,7 +88,7 @@ class CliToApi():
 
         if args.in_place:
             equal = write_strings_on_files_between_markers(
-                filenames=args.filename,
+                filenames=filenames,
                 strings=toc_struct,
                 marker=args.toc_marker,
                 newline_string=newline_string,
@@ -94,7 +97,7 @@ class CliToApi():
             for i, toc in enumerate(toc_struct):
                 print(toc, end='')
                 if args.diff:
-                    equal &= tocs_equal(toc, args.filename[i], args.toc_marker)
+                    equal &= tocs_equal(toc, filenames[i], args.toc_marker)
 
         diff: bool = False
         if equal is False:
-- 
2.43.0

