From 3b7bd5be8a14575771e430b7047a424aad1bb24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 01/80] fix: keep next-block commands pending until a message
 is saved

Md2Po called _save_current_msgid() for blocks without text of their own
(nested lists, quotes after a list, thematic breaks), which cleared a
pending mdpo-disable-next-block, mdpo-context, ... before the block that
they were written for.
---
 src/mdpo/md2po/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index be23928..0597693 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -490,11 +490,11 @@ class Md2Po:
                         flags=['fuzzy'] if fuzzy else [],
                     ),
                 )
-        self.disable_next_block = False
-        self.enable_next_block = False
-        self.current_msgid = ''
-        self.current_tcomment = None
-        self.current_msgctxt = None
+            self.disable_next_block = False
+            self.enable_next_block = False
+            self.current_msgid = ''
+            self.current_tcomment = None
+            self.current_msgctxt = None
 
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
-- 
2.43.0


From 37f96f8bb90f8c239d77904a41128a51f1b3bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 02/80] fix: keep next-block commands pending until a message
 is translated

---
 src/mdpo/po2md/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index efd1bdb..973fcb2 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -462,12 +462,13 @@ class Po2Md:
         if translation.rstrip('\n'):
             self.current_line += translation
 
-        self.current_msgid = ''
-        self.current_msgctxt = None
-        self.current_tcomment = None
+        if self.current_msgid:
+            self.current_msgid = ''
+            self.current_msgctxt = None
+            self.current_tcomment = None
 
-        self.disable_next_block = False
-        self.enable_next_block = False
+            self.disable_next_block = False
+            self.enable_next_block = False
 
         self._codespan_inside_current_msgid = False
         self._aimg_title_inside_current_msgid = False
-- 
2.43.0


From d7b449261e3de730d69a0e726aa544700f0f9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 03/80] fix: save the pending message before an ordered list
 nested in a bullet list

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 973fcb2..d127c50 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -529,7 +529,7 @@ class Po2Md:
         elif block is md4c.BlockType.LI:
             if self._current_list_type[-1][0] == 'ol':
                 # inside OL
-                if len(self._ol_marks) > 1:
+                if len(self._current_list_type) > 1:
                     self._save_current_msgid()
                     if not self._ol_marks[-1][0]:
                         self._save_current_line()
-- 
2.43.0


From f4624a8cd73ae1ff9cbb7ebb35ef56151b714747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 04/80] fix: mdpo2html honours enable-next-block over a pending
 disable-next-block

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9afd363..3e562d7 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -248,8 +248,8 @@ class MdPo2HTML(HTMLParser):
 
         _current_replacement = html.unescape(_current_replacement)
 
-        if (self.disable and not self.enable_next_block) \
-                or self.disable_next_block:
+        if (self.disable or self.disable_next_block) \
+                and not self.enable_next_block:
             replacement = _current_replacement
 
             self.disabled_entries.append(
-- 
2.43.0


From cbbec0369e1776ca4698c64dfb188d8486386ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 05/80] fix: mdpo2html translates the items of ordered lists

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 3e562d7..61eed92 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -319,7 +319,7 @@ class MdPo2HTML(HTMLParser):
             self.output += f'<{tag}{attrs_repr}>'
         elif (
             (self.context and self.context[0] in self.ignore_grouper_tags)
-            or (tag == 'ul' and not self.context)
+            or (tag in {'ul', 'ol'} and not self.context)
             or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
         ):
             attrs_repr = (
@@ -349,7 +349,7 @@ class MdPo2HTML(HTMLParser):
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-        elif tag in ['ul', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif tag in ['ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
-- 
2.43.0


From 6e17d9c582f8aa4f28a28fca610e9686f667f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 06/80] fix: mdpo2html keeps translating after void elements

---
 src/mdpo/mdpo2html/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 61eed92..8c76965 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -26,6 +26,10 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+VOID_TAGS = frozenset([
+    'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link',
+    'meta', 'source', 'track', 'wbr',
+])
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -310,6 +314,9 @@ class MdPo2HTML(HTMLParser):
         self.current_msgctxt = None
 
     def handle_starttag(self, tag, attrs):
+        if tag in VOID_TAGS:  # has no end tag
+            self.handle_startendtag(tag, attrs)
+            return
 
         if tag in self.ignore_grouper_tags:
             self.context.append(tag)
-- 
2.43.0


From bfde381db62f0db563cbea17330f607af4615d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 07/80] fix: po2md keeps HTML comments that are not mdpo
 commands

---
 src/mdpo/po2md/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d127c50..2dc2101 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -357,13 +357,15 @@ class Po2Md:
         if original_command is None:
             return False
 
-        self._inside_htmlblock[1] = True
-
         try:
             command = self.command_aliases[original_command]
         except KeyError:  # not custom command
             command = original_command
 
+        if not command.startswith('mdpo-'):  # other HTML comment
+            return False
+        self._inside_htmlblock[1] = True
+
         # process solved command
         self.command(command, comment, original_command)
 
-- 
2.43.0


From 94bc1cdbf2b4900e9b21978ed3077ce72cdd6f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 08/80] fix: accept any text in the argument of an mdpo command

---
 src/mdpo/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/command.py b/src/mdpo/command.py
index 2b24866..eaaa769 100644
--- a/src/mdpo/command.py
+++ b/src/mdpo/command.py
@@ -1,7 +1,9 @@
 """mdpo HTML commands related utilities."""
 
 
-COMMAND_SEARCH_REGEX = r'<\!\-\-\s{0,}([^\s]+)\s{0,}([\w\s]+)?\-\->'
+COMMAND_SEARCH_REGEX = (
+    r'<\!\-\-\s{0,}((?:(?!\-\->)[^\s])+)\s{0,}([\s\S]*?)\-\->'
+)
 
 MDPO_COMMANDS = [
     'context',
-- 
2.43.0


From c9d536b3a27039388e6964cf2fc8a58e372717f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 09/80] fix: ignore obsolete and untranslated entries when
 building the translations

---
 src/mdpo/po.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 61ebb8b..cea5eec 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -128,6 +128,8 @@ def pofiles_to_unique_translations_dicts(pofiles):
     translations, translations_with_msgctxt = {}, {}
     for pofile in pofiles:
         for entry in pofile:
+            if entry.obsolete or not entry.msgstr:
+                continue
             if entry.msgctxt:
                 if entry.msgctxt not in translations_with_msgctxt:
                     translations_with_msgctxt[entry.msgctxt] = {}
-- 
2.43.0


From 0652709aa1a874151512f4a6265243439ce29a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 10/80] fix: mdpo2html keeps the source text of messages in
 unknown contexts

---
 src/mdpo/mdpo2html/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 8c76965..8c8f471 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -265,9 +265,10 @@ class MdPo2HTML(HTMLParser):
             )
         else:
             if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt[
-                    self.current_msgctxt
-                ].get(_current_replacement)
+                replacement = self.translations_with_msgctxt.get(
+                    self.current_msgctxt,
+                    {},
+                ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
             if not replacement:
-- 
2.43.0


From eb0b5b6a0f190bb812f5f5583a7aeb4bea97c34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 11/80] fix: mdpo2html accepts links without target and images
 without source

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 8c8f471..590cc21 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -181,7 +181,7 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
                     raw_html_template += f'<{handled}{attrs_repr}>'
-                elif handled in self.link_tags:
+                elif handled in self.link_tags and 'href' in attrs:
                     title, href = attrs.get('title'), attrs['href']
                     _current_link_target += f'({href}'
                     if title:
@@ -235,7 +235,7 @@ class MdPo2HTML(HTMLParser):
             elif handle == 'comment':
                 raw_html_template += f'<!--{handled}-->'
             elif handle == 'startend':
-                if handled in self.image_tags:
+                if handled in self.image_tags and 'src' in attrs:
                     alt, src = attrs.get('alt', ''), attrs['src']
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
-- 
2.43.0


From 8d2a42a4fdadcd3a88ca8d47571201e4e272900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 12/80] fix: do not skip entries when removing obsolete
 duplicates

---
 src/mdpo/po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index cea5eec..9c76dc1 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -63,7 +63,7 @@ def mark_not_found_entries_as_obsoletes(
         entries (list): Entries to search against.
     """
     obsolete = False
-    for entry in pofile:
+    for entry in list(pofile):  # entries are removed while iterating
         if not find_entry_in_entries(
             entry,
             entries,
-- 
2.43.0


From fdee2f80812c06b67c6993d98d74f361f6187095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 13/80] fix: a found message is never marked as obsolete nor
 removed

---
 src/mdpo/po.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 9c76dc1..009b1cd 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -67,12 +67,14 @@ def mark_not_found_entries_as_obsoletes(
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
                 entry,
                 entries,
                 compare_obsolete=False,
+                compare_msgstr=False,
                 compare_occurrences=False,
             )
             if _equal_not_obsolete_found:
@@ -98,12 +100,14 @@ def remove_not_found_entries(pofile, entries):
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
                 entry,
                 entries,
                 compare_obsolete=False,
+                compare_msgstr=False,
                 compare_occurrences=False,
             )
             if not _equal_not_obsolete_found:
-- 
2.43.0


From b0170e6f6bb0b878b9fa3fe809848677a6c095c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 14/80] fix: remove the obsolete duplicates of found messages

---
 src/mdpo/po.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 009b1cd..9b94513 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -103,15 +103,7 @@ def remove_not_found_entries(pofile, entries):
             compare_msgstr=False,
             compare_occurrences=False,
         ):
-            _equal_not_obsolete_found = find_entry_in_entries(
-                entry,
-                entries,
-                compare_obsolete=False,
-                compare_msgstr=False,
-                compare_occurrences=False,
-            )
-            if not _equal_not_obsolete_found:
-                entries_to_remove.append(entry)
+            entries_to_remove.append(entry)
     for entry in entries_to_remove:
         pofile.remove(entry)
 
-- 
2.43.0


From 491f5ce7c032d36ac09496cbb83aaa61ef772ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 15/80] fix: save the text of a list item before the blocks
 nested in it

---
 src/mdpo/md2po/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 0597693..373785e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -573,6 +573,12 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_block', self, block, details):
             return
 
+        if self.current_msgid and block in {
+            md4c.BlockType.CODE, md4c.BlockType.H, md4c.BlockType.HTML,
+        }:
+            # text of the tight list item which contains this block
+            self._save_current_msgid()
+
         if block is md4c.BlockType.P:
             self._inside_pblock = True
             if not any([
-- 
2.43.0


From 3dee7b93da34c2b2e172a279553964e8cab6ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 16/80] fix: po2md translates the text of a list item before
 the blocks nested in it

---
 src/mdpo/po2md/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2dc2101..9abf81c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -525,6 +525,11 @@ class Po2Md:
             if self.current_line:
                 self._save_current_line()
         elif block is md4c.BlockType.H:
+            if self._inside_liblock and self.current_msgid:
+                # text of the tight list item which contains the heading
+                self._save_current_msgid()
+                self._save_current_line()
+                self.current_line += '   ' * len(self._current_list_type)
             self._inside_hblock = True
             hash_signs = '#' * details['level']
             self.current_line += f'{hash_signs} '
@@ -589,6 +594,10 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
+            if self._inside_liblock and self.current_msgid:
+                # text of the tight list item which contains the HTML
+                self._save_current_msgid()
+                self._save_current_line()
             self._inside_htmlblock = [True, False]
 
     def leave_block(self, block, details):
-- 
2.43.0


From f3cc69a3fec23e5d0c8af3ae13d4cc57e5fd2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 17/80] fix: po2md translates the text of a list item before a
 thematic break in it

---
 src/mdpo/po2md/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 9abf81c..dcc9721 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -564,6 +564,10 @@ class Po2Md:
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
+            if self._inside_liblock and self.current_msgid:
+                # text of the tight list item which contains the break
+                self._save_current_msgid()
+                self._save_current_line()
             if self._current_list_type and not self.current_line:
                 self._save_current_line()
             indent = (
-- 
2.43.0


From ce16f7bd04897a3d7f3eedcbdd441cff9003a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 18/80] fix: po2md keeps strikethrough markup in messages

---
 src/mdpo/po2md/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index dcc9721..0e64c4a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -80,6 +80,8 @@ class Po2Md:
         'code_end_string_escaped',
         'wikilink_start_string',
         'wikilink_end_string',
+        'strikethrough_start_string',
+        'strikethrough_end_string',
         'latexmath_start_string',
         'latexmath_end_string',
         'latexmath_display_start_string',
@@ -258,6 +260,17 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
+        if 'strikethrough' in self.extensions:
+            self.strikethrough_start_string = kwargs.get(
+                'strikethrough_start_string', '~~')
+            self._enterspan_replacer[md4c.SpanType.DEL.value] = \
+                self.strikethrough_start_string
+
+            self.strikethrough_end_string = kwargs.get(
+                'strikethrough_end_string', '~~')
+            self._leavespan_replacer[md4c.SpanType.DEL.value] = \
+                self.strikethrough_end_string
+
         if 'latex_math_spans' in self.extensions:
             self._inside_latexmath_display = False
 
-- 
2.43.0


From e84ac9880eca90903220d0902e9e362c334ba576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 19/80] fix: define the po2md LaTeX display state without the
 extension

---
 src/mdpo/po2md/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0e64c4a..95a98c5 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -271,9 +271,8 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.DEL.value] = \
                 self.strikethrough_end_string
 
+        self._inside_latexmath_display = False
         if 'latex_math_spans' in self.extensions:
-            self._inside_latexmath_display = False
-
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
-- 
2.43.0


From d72b686e121ec5d088816bae17879e1be2e272b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 20/80] fix: po2md joins soft breaks inside link texts as md2po
 does

---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 95a98c5..df9af13 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -909,7 +909,9 @@ class Po2Md:
 
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
-                if self._inside_liblock and text == '\n':
+                if text == '\n' and (  # softbreaks
+                    self._inside_liblock or self._inside_aspan
+                ):
                     text = ' '
                 if self._current_imgspan:
                     self._current_imgspan['text'] = text
-- 
2.43.0


From 989412b0648696f0dee5b968a68c4bc08f8befac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 21/80] fix: po2md builds wikilink messages as md2po does

---
 src/mdpo/po2md/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index df9af13..bb612e9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -247,11 +247,11 @@ class Po2Md:
 
         if 'wikilinks' in self.extensions:
             self.wikilink_start_string = kwargs.get(
-                'link_end_string',
+                'wikilink_start_string',
                 self.wikilink_start_string,
             )
             self.wikilink_end_string = kwargs.get(
-                'link_end_string',
+                'wikilink_end_string',
                 self.wikilink_end_string,
             )
 
@@ -808,7 +808,7 @@ class Po2Md:
             return
 
         if span is md4c.SpanType.WIKILINK:
-            self.current_msgid += polib.escape(self._current_wikilink_target)
+            self.current_msgid += self._current_wikilink_target
             self._current_wikilink_target = None
 
         if self._inside_aspan:  # span inside link text
-- 
2.43.0


From b4b448a493e7a8d1ba2cd1bc3c3666ab4e2f53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 22/80] fix: po2md keeps LaTeX spans inside the links that
 contain them

---
 src/mdpo/po2md/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index bb612e9..aeb9497 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -276,6 +276,12 @@ class Po2Md:
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
+
+            self._enterspan_replacer[md4c.SpanType.LATEXMATH.value] = \
+                self.latexmath_start_string
+            self._leavespan_replacer[md4c.SpanType.LATEXMATH.value] = \
+                self.latexmath_end_string
+
             self.latexmath_display_start_string = kwargs.get(
                 'latexmath_display_start_string',
                 '$$',
@@ -791,8 +797,6 @@ class Po2Md:
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
-        elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -885,8 +889,6 @@ class Po2Md:
                 self.current_msgid += img_markup
 
             self._current_imgspan = {}
-        elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_end_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_line += self.latexmath_display_start_string
-- 
2.43.0


From 38b4d7cdc20eb08a426a08578297dc983037e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 23/80] fix: md2po closes single underlines and keeps the spans
 inside them

---
 src/mdpo/md2po/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 373785e..ef9a46d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -364,7 +364,8 @@ class Md2Po:
             # optimization to skip checking for
             # ``self.md4c_generic_parser_kwargs.get('underline')``
             # inside spans
-            self._inside_uspan = False
+            # number of underline spans currently opened
+            self._inside_uspan = 0
 
         self._inside_htmlblock = False
         self._inside_codeblock = False
@@ -701,7 +702,7 @@ class Md2Po:
             return
 
         # underline spans for double '_' character enters two times
-        if not self._inside_uspan:
+        if span is not md4c.SpanType.U or not self._inside_uspan:
             if self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
                     self._current_aspan_text += self._enterspan_replacer[
@@ -756,7 +757,7 @@ class Md2Po:
                 else details['title'][0][1]
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.U:
-            self._inside_uspan = True
+            self._inside_uspan += 1
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -772,7 +773,10 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
-        if not self._inside_uspan:
+        if span is md4c.SpanType.U and self._inside_uspan:
+            self._inside_uspan -= 1
+
+        if span is not md4c.SpanType.U or not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
                 self.current_msgid += self._current_wikilink_target
                 self._current_wikilink_target = None
@@ -856,8 +860,6 @@ class Md2Po:
                 self._current_aspan_text += img_markup
             else:
                 self.current_msgid += img_markup
-        elif span is md4c.SpanType.U:
-            self._inside_uspan = False
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_msgid += self._inside_latexmath_display_text
-- 
2.43.0


From b708ceb1dbaf28f935346bebb5cf54ae33ec8f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 24/80] fix: po2md keeps underline markup in messages

---
 src/mdpo/po2md/__init__.py | 40 ++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index aeb9497..d7fb0b8 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -86,6 +86,8 @@ class Po2Md:
         'latexmath_end_string',
         'latexmath_display_start_string',
         'latexmath_display_end_string',
+        'underline_start_string',
+        'underline_end_string',
 
         # Public class properties
         'current_msgid',
@@ -112,6 +114,7 @@ class Po2Md:
         '_inside_aspan',
         '_inside_codespan',
         '_inside_latexmath_display',
+        '_inside_uspan',
         '_codespan_start_index',
         '_codespan_backticks',
         '_codespan_inside_current_msgid',
@@ -260,6 +263,20 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
+        # number of underline spans currently opened
+        self._inside_uspan = 0
+        if 'underline' in self.extensions:
+            # underline text is standarized with double '_'
+            self.underline_start_string = kwargs.get(
+                'underline_start_string', '__')
+            self._enterspan_replacer[md4c.SpanType.U.value] = \
+                self.underline_start_string
+
+            self.underline_end_string = kwargs.get(
+                'underline_end_string', '__')
+            self._leavespan_replacer[md4c.SpanType.U.value] = \
+                self.underline_end_string
+
         if 'strikethrough' in self.extensions:
             self.strikethrough_start_string = kwargs.get(
                 'strikethrough_start_string', '~~')
@@ -754,11 +771,15 @@ class Po2Md:
         ):
             return
 
-        with contextlib.suppress(KeyError):
-            if self._inside_aspan:  # span inside link text
-                self._current_aspan_text += self._enterspan_replacer[span.value]
-            else:
-                self.current_msgid += self._enterspan_replacer[span.value]
+        # underline spans for double '_' character enters two times
+        if span is not md4c.SpanType.U or not self._inside_uspan:
+            with contextlib.suppress(KeyError):
+                if self._inside_aspan:  # span inside link text
+                    self._current_aspan_text += (
+                        self._enterspan_replacer[span.value]
+                    )
+                else:
+                    self.current_msgid += self._enterspan_replacer[span.value]
 
         if span is md4c.SpanType.A:
             self._inside_aspan = True
@@ -797,6 +818,8 @@ class Po2Md:
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
+        elif span is md4c.SpanType.U:
+            self._inside_uspan += 1
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -815,7 +838,12 @@ class Po2Md:
             self.current_msgid += self._current_wikilink_target
             self._current_wikilink_target = None
 
-        if self._inside_aspan:  # span inside link text
+        if span is md4c.SpanType.U and self._inside_uspan:
+            self._inside_uspan -= 1
+
+        if span is md4c.SpanType.U and self._inside_uspan:
+            pass  # underline not closed yet
+        elif self._inside_aspan:  # span inside link text
             with contextlib.suppress(KeyError):
                 self._current_aspan_text += self._leavespan_replacer[
                     span.value
-- 
2.43.0


From 50298985126fe9412d5bf4b0278c2c5391982861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 25/80] fix: md2po builds LaTeX display messages as po2md does

---
 src/mdpo/md2po/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index ef9a46d..94b3cc1 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -862,7 +862,9 @@ class Md2Po:
                 self.current_msgid += img_markup
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
-            self.current_msgid += self._inside_latexmath_display_text
+            self.current_msgid = (
+                self.current_msgid + self._inside_latexmath_display_text
+            ).strip()
             self._inside_latexmath_display_text = ''
             self._save_current_msgid()
 
@@ -920,7 +922,7 @@ class Md2Po:
                         )
                     return
                 if self._inside_latexmath_display:
-                    self._inside_latexmath_display_text += text.strip()
+                    self._inside_latexmath_display_text += text
                     return
                 self.current_msgid += text
             elif not self.disable_next_codeblock and (
-- 
2.43.0


From bafcfe5e59bc3d1aaf20be849c1b51300b4033b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 26/80] fix: escape backticks of code spans inside links in
 their own text

---
 src/mdpo/md2po/__init__.py | 20 ++++++++++++++------
 src/mdpo/po2md/__init__.py | 31 ++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 94b3cc1..2ff8dcc 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -747,7 +747,10 @@ class Md2Po:
             # will be escaped
             #
             # save the index char of the opening backtick
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            ) - 1
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -893,14 +896,19 @@ class Md2Po:
                         backticks = (
                             self._codespan_backticks * self.code_start_string
                         )
+                        index = self._codespan_start_index
+                        if self._inside_aspan:
+                            self._current_aspan_text = (
+                                f'{self._current_aspan_text[:index]}'
+                                f'{backticks}'
+                                f'{self._current_aspan_text[index:]}{text}'
+                            )
+                            return
                         self.current_msgid = (
-                            f'{self.current_msgid[:self._codespan_start_index]}'
+                            f'{self.current_msgid[:index]}'
                             f'{backticks}'
-                            f'{self.current_msgid[self._codespan_start_index:]}'
+                            f'{self.current_msgid[index:]}'
                         )
-                        if self._inside_aspan:
-                            self._current_aspan_text += text
-                            return
                     elif self._inside_aspan:
                         self._current_aspan_text += text
                         return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d7fb0b8..5db16bf 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -806,7 +806,10 @@ class Po2Md:
                         break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            ) - 1
             self._codespan_inside_current_msgid = True
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
@@ -882,9 +885,11 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self.current_msgid += (
-                self._codespan_backticks * self.code_end_string
-            )
+            backticks = self._codespan_backticks * self.code_end_string
+            if self._inside_aspan:
+                self._current_aspan_text += backticks
+            else:
+                self.current_msgid += backticks
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
@@ -951,14 +956,22 @@ class Po2Md:
                         self.code_start_string,
                         text,
                     ) - 1
-                    self.current_msgid = (
-                        f'{self.current_msgid[:self._codespan_start_index]}'
-                        f'{self._codespan_backticks * self.code_start_string}'
-                        f'{self.current_msgid[self._codespan_start_index:]}'
+                    backticks = (
+                        self._codespan_backticks * self.code_start_string
                     )
+                    index = self._codespan_start_index
                     if self._inside_aspan:
-                        self._current_aspan_text += text
+                        self._current_aspan_text = (
+                            f'{self._current_aspan_text[:index]}'
+                            f'{backticks}'
+                            f'{self._current_aspan_text[index:]}{text}'
+                        )
                         return
+                    self.current_msgid = (
+                        f'{self.current_msgid[:index]}'
+                        f'{backticks}'
+                        f'{self.current_msgid[index:]}'
+                    )
                 elif self._inside_aspan:
                     self._current_aspan_text += text
                     return
-- 
2.43.0


From ece72b1ff5810fef2fb135ae5902a31c6bc1ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 27/80] fix: do not modify the metadata passed by the caller of
 md2po

---
 src/mdpo/md2po/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 2ff8dcc..8351577 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -237,7 +237,7 @@ class Md2Po:
             False if kwargs.get('_check_saved_files_changed') else None
         )
 
-        self.metadata = kwargs.get('metadata') or {}
+        self.metadata = dict(kwargs.get('metadata') or {})
 
         self.location = kwargs.get('location', True)
         # "top level" here because blocks inside blocks are not taken into
-- 
2.43.0


From fd6ff32b693fa09520afc886a2bad4aa73aff2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 28/80] fix: md2po includes the X-header in plaintext mode too

---
 src/mdpo/md2po/__init__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 8351577..f56520e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -239,6 +239,11 @@ class Md2Po:
 
         self.metadata = dict(kwargs.get('metadata') or {})
 
+        if kwargs.get('xheader', False):
+            from mdpo.compat import importlib_metadata
+            version = importlib_metadata.version('mdpo')
+            self.metadata.update({'X-Generator': f'mdpo v{version}'})
+
         self.location = kwargs.get('location', True)
         # "top level" here because blocks inside blocks are not taken into
         # account for locations
@@ -273,13 +278,6 @@ class Md2Po:
                 self.code_end_string,
             )
 
-            _include_xheader = kwargs.get('xheader', False)
-
-            if _include_xheader:
-                from mdpo.compat import importlib_metadata
-                version = importlib_metadata.version('mdpo')
-                self.metadata.update({'X-Generator': f'mdpo v{version}'})
-
             self._enterspan_replacer = {
                 md4c.SpanType.STRONG.value: self.bold_start_string,
                 md4c.SpanType.EM.value: self.italic_start_string,
-- 
2.43.0


From 441bc889553dc1ccb4ff5b2e158c39af8be6e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 29/80] fix: checks of PO files in po2md and mdpo2html CLIs

---
 src/mdpo/mdpo2html/__main__.py | 11 ++++++++---
 src/mdpo/po2md/__main__.py     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index a5d42e6..0bea1db 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -129,7 +129,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -152,7 +152,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -169,8 +169,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4b271ea..4438792 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -153,7 +153,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -176,7 +176,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -193,8 +193,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From fb8f28f6ccaa7f91db916aabafd978f08aa50b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 30/80] fix: checks of the PO file in md2po CLI without PO file

---
 src/mdpo/md2po/__main__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 5f390e0..0f2ec3b 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -6,6 +6,7 @@ See :ref:`md2po CLI<cli:md2po>`.
 """
 
 import argparse
+import os
 import sys
 
 from mdpo.cli import (
@@ -239,9 +240,14 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and md2po._saved_files_changed:
             exitcode = 2
 
+        po_filepaths = [
+            po_filepath for po_filepath in (opts.po_filepath,)
+            if po_filepath and os.path.isfile(po_filepath)
+        ]
+
         if opts.no_obsolete:
             locations = list(check_obsolete_entries_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -258,7 +264,7 @@ def run(args=frozenset()):
 
         if opts.no_fuzzy:
             locations = list(check_fuzzy_entries_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -276,7 +282,7 @@ def run(args=frozenset()):
 
         if opts.no_empty_msgstr:
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From 35fa3dfedcaab2896336465671f2798ff5fcdde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 31/80] fix: mdpo2html CLI requires PO files

---
 src/mdpo/mdpo2html/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 0bea1db..0cbe2e6 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -44,7 +44,7 @@ def build_parser():
     )
     parser.add_argument(
         '-p', '--po-files', '--pofiles', metavar='POFILES', action='append',
-        nargs='*', dest='pofiles',
+        nargs='*', dest='pofiles', required=True,
         help='Glob matching a set of PO files from where to extract references'
              ' to make the replacements translating strings. This argument'
              ' can be passed multiple times.',
-- 
2.43.0


From ca6db8f921bfa0b9615ce76e540e084c140a2ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 32/80] fix: CLIs process PO files and languages in the order
 given

---
 src/mdpo/md2po2md/__main__.py  | 3 ++-
 src/mdpo/mdpo2html/__main__.py | 3 ++-
 src/mdpo/po2md/__main__.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po2md/__main__.py b/src/mdpo/md2po2md/__main__.py
index 72ae6e6..f707048 100755
--- a/src/mdpo/md2po2md/__main__.py
+++ b/src/mdpo/md2po2md/__main__.py
@@ -113,7 +113,8 @@ def parse_options(args):
         sys.exit(1)
     opts.input_paths_glob = input_paths_glob
 
-    opts.langs = set(itertools.chain(*opts.langs))  # flatten
+    # flatten preserving the order
+    opts.langs = list(dict.fromkeys(itertools.chain(*opts.langs)))
 
     if opts.extensions is None:
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 0cbe2e6..a962c74 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -93,7 +93,8 @@ def parse_options(args):
         opts.command_aliases,
     )
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    # flatten preserving the order
+    opts.pofiles = list(dict.fromkeys(itertools.chain(*opts.pofiles)))
 
     return opts
 
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4438792..903bd41 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -111,7 +111,8 @@ def parse_options(args):
     )
     opts.events = parse_event_argument(opts.events)
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    # flatten preserving the order
+    opts.pofiles = list(dict.fromkeys(itertools.chain(*opts.pofiles)))
 
     return opts
 
-- 
2.43.0


From 37380593d4e5aa6012adb0dfe421922d980144db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 33/80] fix: md2po does not expand again the paths matched by a
 glob

---
 src/mdpo/md2po/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index f56520e..d8d0dc7 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -140,14 +140,19 @@ class Md2Po:
     }
 
     def __init__(self, files_or_content, **kwargs):
-        is_glob, files_or_content = to_files_or_content(files_or_content)
+        is_glob, paths_or_content = to_files_or_content(files_or_content)
         if is_glob:
+            if not isinstance(files_or_content, str):
+                # list of paths and globs, not expanded yet
+                paths_or_content = flatten(
+                    glob.glob(globpath) for globpath in paths_or_content
+                )
             self.filepaths = filter_paths(
-                flatten(glob.glob(globpath) for globpath in files_or_content),
+                paths_or_content,
                 ignore_paths=kwargs.get('ignore', []),
             )
         else:
-            self.content = files_or_content
+            self.content = paths_or_content
 
         #: :py:class:`polib.POFile` PO file object representing
         #: the extracted content.
-- 
2.43.0


From 48bc4fb1c598138fafed7f1d6ff0a0ce74d0c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 34/80] fix: md2po2md supports paths with glob characters

---
 src/mdpo/md2po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 39a4554..ac018f0 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -149,7 +149,7 @@ def markdown_to_pofile_to_markdown(
 
             # md2po
             md2po = Md2Po(
-                filepath,
+                glob.escape(filepath),
                 extensions=extensions,
                 command_aliases=command_aliases,
                 debug=debug,
@@ -170,7 +170,7 @@ def markdown_to_pofile_to_markdown(
 
             # po2md
             po2md = Po2Md(
-                [po_filepath],
+                [glob.escape(po_filepath)],
                 command_aliases=command_aliases,
                 debug=debug,
                 po_encoding=po_encoding,
-- 
2.43.0


From e4fb0fffb5e57d0ffc61db0ec2471891924755b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 35/80] fix: md2po2md wraps PO files at po_wrapwidth

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index ac018f0..3446cb0 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -154,7 +154,6 @@ def markdown_to_pofile_to_markdown(
                 command_aliases=command_aliases,
                 debug=debug,
                 location=location,
-                wrapwidth=po_wrapwidth,
                 include_codeblocks=include_codeblocks,
                 _check_saved_files_changed=_check_saved_files_changed,
                 **(md2po_kwargs or {}),
@@ -164,6 +163,7 @@ def markdown_to_pofile_to_markdown(
                 po_filepath=po_filepath,
                 po_encoding=po_encoding,
                 md_encoding=md_encoding,
+                wrapwidth=po_wrapwidth,
             )
             if _check_saved_files_changed and _saved_files_changed is False:
                 _saved_files_changed = md2po._saved_files_changed
-- 
2.43.0


From 1363ced5e59ec386bdf4b361feac1f711066d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 36/80] fix: md2po2md translates with the extensions used to
 extract

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 3446cb0..8a9fbc8 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -176,7 +176,7 @@ def markdown_to_pofile_to_markdown(
                 po_encoding=po_encoding,
                 wrapwidth=md_wrapwidth,
                 _check_saved_files_changed=_check_saved_files_changed,
-                **(po2md_kwargs or {}),
+                **{'extensions': extensions, **(po2md_kwargs or {})},
             )
             po2md.translate(
                 filepath,
-- 
2.43.0


From 6e197bb0e2d21bdd18bc13ec8da3c624ad83477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 37/80] fix: md2po2md processes the files in a stable order

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 8a9fbc8..3466c94 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -89,7 +89,7 @@ def markdown_to_pofile_to_markdown(
         )
 
     try:
-        input_paths_glob_ = glob.glob(input_paths_glob)
+        input_paths_glob_ = sorted(glob.glob(input_paths_glob))
     except Exception as err:
         if (
             err.__module__ in ['re', 'sre_constants']
-- 
2.43.0


From 85a4920a5cd0446cde83b0b323d5d05b8b850bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 38/80] fix: md2po2md reads Markdown files as UTF-8 by default

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 3466c94..d999f03 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -24,7 +24,7 @@ def markdown_to_pofile_to_markdown(
     po_wrapwidth=78,
     md_wrapwidth=80,
     po_encoding=None,
-    md_encoding=None,
+    md_encoding='utf-8',
     include_codeblocks=False,
     md2po_kwargs=None,
     po2md_kwargs=None,
-- 
2.43.0


From d878bc413088de6777ecf55e08f177fb7293a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 39/80] fix: md2po CLI reads the messages to ignore as UTF-8 by
 default

---
 src/mdpo/md2po/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 0f2ec3b..cf9e0c4 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -183,7 +183,10 @@ def parse_options(args):
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 
     if opts.ignore_msgids is not None:
-        with open(opts.ignore_msgids, encoding=opts.po_encoding) as f:
+        with open(
+            opts.ignore_msgids,
+            encoding=opts.po_encoding or 'utf-8',
+        ) as f:
             opts.ignore_msgids = f.read().splitlines()
     else:
         opts.ignore_msgids = []
-- 
2.43.0


From 5d94de0dbaefe328af8396218f79a85d6bbbd17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 40/80] fix: do not truncate the destination of contents that
 can not be encoded

---
 src/mdpo/io.py                 | 22 ++++++++++++++++++----
 src/mdpo/md2po/__init__.py     |  2 ++
 src/mdpo/mdpo2html/__init__.py |  9 ++++++---
 src/mdpo/po2md/__init__.py     |  9 ++++++---
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 6ba8f2e..61c3ca1 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -107,6 +107,22 @@ def to_files_or_content(value):
     return (True, parsed)
 
 
+def save_file(filepath, content, encoding='utf-8'):
+    """Save a text file.
+
+    The content is encoded before opening the file, so a content that can't
+    be encoded does not truncate the previous version of the file.
+
+    Args:
+        filepath (str): Path to the file to save.
+        content (str): Content to save.
+        encoding (str): Encoding to use when saving the file.
+    """
+    content.encode(encoding)
+    with open(filepath, 'w', encoding=encoding) as f:
+        f.write(content)
+
+
 def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
     """Save a file checking if the content has changed.
 
@@ -119,16 +135,14 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
         bool: If the PO file content has been changed.
     """
     if not os.path.isfile(filepath):
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
+        save_file(filepath, content, encoding=encoding)
         return True
 
     with open(filepath, encoding=encoding) as f:
         prev_content = f.read()
     changed = prev_content != content
     if changed:
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
+        save_file(filepath, content, encoding=encoding)
     return changed
 
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d8d0dc7..7dbadfe 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1070,6 +1070,8 @@ class Md2Po:
                     encoding=self.pofile.encoding,
                 )
             else:
+                # fail before truncating the file
+                str(self.pofile).encode(self.pofile.encoding)
                 self.pofile.save(fpath=po_filepath)
         if mo_filepath:
             self.pofile.save_as_mofile(mo_filepath)
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 590cc21..121b24e 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -14,7 +14,11 @@ from mdpo.command import (
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
 )
-from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
+from mdpo.io import (
+    save_file,
+    save_file_checking_file_changed,
+    to_file_content_if_is_file,
+)
 from mdpo.md import solve_link_reference_targets
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
@@ -451,8 +455,7 @@ class MdPo2HTML(HTMLParser):
                     encoding=html_encoding,
                 )
             else:
-                with open(save, 'w', encoding=html_encoding) as f:
-                    f.write(self.output)
+                save_file(save, self.output, encoding=html_encoding)
 
         self.reset()
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 5db16bf..cf211c2 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -11,7 +11,11 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
-from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
+from mdpo.io import (
+    save_file,
+    save_file_checking_file_changed,
+    to_file_content_if_is_file,
+)
 from mdpo.md import parse_link_references
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
@@ -1079,8 +1083,7 @@ class Po2Md:
                     encoding=md_encoding,
                 )
             else:
-                with open(save, 'w', encoding=md_encoding) as f:
-                    f.write(self.output)
+                save_file(save, self.output, encoding=md_encoding)
         return self.output
 
 
-- 
2.43.0


From 3d9d176a6420cb697f8c681a6806b6f07d129ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 41/80] fix: show an error message for invalid values of
 --event CLI argument

---
 src/mdpo/cli.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/cli.py b/src/mdpo/cli.py
index 497fbd3..6da1f7d 100644
--- a/src/mdpo/cli.py
+++ b/src/mdpo/cli.py
@@ -333,6 +333,14 @@ def parse_event_argument(value):
     """
     events = {}
     for event_name_filefunc in value:
+        if ':' not in event_name_filefunc:
+            sys.stderr.write(
+                f"The value '{event_name_filefunc}' passed to argument"
+                " -e/--event can't be parsed. Please, separate the pair"
+                " '<event_name:path/to/file.py::func>' with a ':'"
+                ' character.\n',
+            )
+            sys.exit(1)
         event_name, filefunc = event_name_filefunc.split(':', maxsplit=1)
         events[event_name.strip()] = filefunc.strip()
     return events
-- 
2.43.0


From 1ba34e4606dda4a9a4f00073732a57d652828054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 42/80] fix: commands of a file do not affect the next files in
 md2po

---
 src/mdpo/md2po/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 7dbadfe..d218d35 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1032,6 +1032,7 @@ class Md2Po:
         if hasattr(self, 'content'):
             _parse(self.content)
         else:
+            include_codeblocks = self.include_codeblocks
             for filepath in self.filepaths:
                 with open(filepath, encoding=md_encoding) as f:
                     self.content = f.read()
@@ -1044,6 +1045,9 @@ class Md2Po:
                 self.enable_next_block = False
                 self.include_next_codeblock = False
                 self.disable_next_codeblock = False
+                self.include_codeblocks = include_codeblocks
+                self.current_tcomment = None
+                self.current_msgctxt = None
                 self.link_references = None
                 self._current_top_level_block_number = 0
                 self._current_top_level_block_type = None
-- 
2.43.0


From eb0c88ab69de65be0d7bd1d0fec319eadc2b1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 43/80] fix: events are taken from the file specified, not from
 a module of the same name

---
 src/mdpo/event.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 3f7ca7f..6c23b67 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -1,6 +1,6 @@
 """Custom events executed during the parsing process of an implementation."""
 
-import importlib
+import importlib.util
 import os
 import sys
 
@@ -176,14 +176,18 @@ def parse_events_kwarg(events_kwarg):
                     )
 
                 modname = os.path.splitext(fpath)[0].replace(os.sep, '.')
-                if modname in sys.modules:
-                    mod = sys.modules[modname]
-                else:
+                mod = sys.modules.get(modname)
+                mod_path = getattr(mod, '__file__', None)
+                if mod_path is None or (
+                    os.path.abspath(mod_path) != os.path.abspath(fpath)
+                ):
+                    modname_in_use = mod is not None
                     spec = importlib.util.spec_from_file_location(
                         modname, fpath,
                     )
                     mod = importlib.util.module_from_spec(spec)
-                    sys.modules[modname] = mod
+                    if not modname_in_use:
+                        sys.modules[modname] = mod
                     spec.loader.exec_module(mod)
 
                 func_owner = mod
-- 
2.43.0


From db4c7b86e5272cc75c35d74ddb141dac6007ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 44/80] fix: keep all the alternative text of images

---
 src/mdpo/md2po/__init__.py | 17 ++++++++++++++++-
 src/mdpo/po2md/__init__.py | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d218d35..675a7f0 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -704,6 +704,12 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_span', self, span, details):
             return
 
+        if self._current_imgspan:
+            # the content of an image is its alternative plain text
+            if span is md4c.SpanType.IMG:
+                self._current_imgspan['nested'] += 1
+            return
+
         # underline spans for double '_' character enters two times
         if span is not md4c.SpanType.U or not self._inside_uspan:
             if self._inside_aspan:  # span inside link text
@@ -762,6 +768,7 @@ class Md2Po:
             self._current_imgspan['title'] = '' if not details['title'] \
                 else details['title'][0][1]
             self._current_imgspan['text'] = ''
+            self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.U:
             self._inside_uspan += 1
         elif span is md4c.SpanType.WIKILINK:
@@ -779,6 +786,13 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
+        if self._current_imgspan:
+            if span is not md4c.SpanType.IMG:
+                return
+            if self._current_imgspan['nested']:
+                self._current_imgspan['nested'] -= 1
+                return
+
         if span is md4c.SpanType.U and self._inside_uspan:
             self._inside_uspan -= 1
 
@@ -887,7 +901,8 @@ class Md2Po:
                     text = ' '
                 if not self.plaintext:
                     if self._current_imgspan:
-                        self._current_imgspan['text'] = text
+                        self._current_imgspan['text'] += text.replace(
+                            '\n', ' ')
                         return
                     if self._inside_codespan:
                         # fix backticks for codespan start and end to escape
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index cf211c2..5504177 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -775,6 +775,12 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan:
+            # the content of an image is its alternative plain text
+            if span is md4c.SpanType.IMG:
+                self._current_imgspan['nested'] += 1
+            return
+
         # underline spans for double '_' character enters two times
         if span is not md4c.SpanType.U or not self._inside_uspan:
             with contextlib.suppress(KeyError):
@@ -823,6 +829,7 @@ class Po2Md:
                 else details['title'][0][1]
             self._current_imgspan['src'] = details['src'][0][1]
             self._current_imgspan['text'] = ''
+            self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
         elif span is md4c.SpanType.U:
@@ -841,6 +848,13 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan:
+            if span is not md4c.SpanType.IMG:
+                return
+            if self._current_imgspan['nested']:
+                self._current_imgspan['nested'] -= 1
+                return
+
         if span is md4c.SpanType.WIKILINK:
             self.current_msgid += self._current_wikilink_target
             self._current_wikilink_target = None
@@ -953,7 +967,8 @@ class Po2Md:
                 ):
                     text = ' '
                 if self._current_imgspan:
-                    self._current_imgspan['text'] = text
+                    self._current_imgspan['text'] += text.replace(
+                        '\n', ' ')
                     return
                 if self._inside_codespan:
                     self._codespan_backticks = min_not_max_chars_in_a_row(
-- 
2.43.0


From 59cbbb9b3e5759ee11f5edd484e1a8a8d360db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 45/80] fix: keep the whole destinations and titles of links
 and images

Those with HTML entities were truncated and empty destinations raised
an exception.
---
 src/mdpo/md.py             | 15 +++++++++++++++
 src/mdpo/md2po/__init__.py | 25 ++++++++++++-------------
 src/mdpo/po2md/__init__.py | 31 ++++++++++++++++++-------------
 3 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 033fade..98f2cb5 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -6,6 +6,21 @@ LINK_REFERENCE_REGEX = (
 )
 
 
+def attribute_text(attribute):
+    """Get the text of an attribute of a link, an image or a wikilink.
+
+    The parser provides these attributes divided in several parts if they
+    contain HTML entities and does not provide them at all if they are empty.
+
+    Args:
+        attribute (list): Tuples with the type and the text of each part.
+
+    Returns:
+        str: Text of the attribute.
+    """
+    return ''.join(text for _, text in attribute or [])
+
+
 def parse_link_references(content):
     """Parses link references found in a Markdown content.
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 675a7f0..914927d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -18,7 +18,7 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_files_or_content,
 )
-from mdpo.md import parse_link_references
+from mdpo.md import attribute_text, parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
@@ -697,7 +697,7 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title']:
-            self._save_msgid(details['title'][0][1])
+            self._save_msgid(attribute_text(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
@@ -731,11 +731,11 @@ class Md2Po:
 
             self._inside_aspan = True
 
-            current_aspan_href = details['href'][0][1]
+            current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == current_aspan_href
@@ -764,15 +764,14 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['src'] = details['src'][0][1]
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
+            self._current_imgspan['src'] = attribute_text(details['src'])
+            self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['text'] = ''
             self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.U:
             self._inside_uspan += 1
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -820,8 +819,9 @@ class Md2Po:
                     )
                 self._current_aspan_ref_target = None
             else:
-                title = details['title'][0][1] if details['title'] else ''
-                if self._current_aspan_text == details['href'][0][1]:
+                href = attribute_text(details['href'])
+                title = attribute_text(details['title'])
+                if href and self._current_aspan_text == href:
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
@@ -829,7 +829,6 @@ class Md2Po:
                     self.current_msgid += '>'
                 else:
                     title_part = f' "{polib.escape(title)}"' if title else ''
-                    href = details['href'][0][1]
                     self.current_msgid += (
                         f'[{self._current_aspan_text}]({href}{title_part})'
                     )
@@ -851,9 +850,9 @@ class Md2Po:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = details['title'][0][1]
+                imgspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 5504177..36e77ba 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -16,7 +16,7 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_file_content_if_is_file,
 )
-from mdpo.md import parse_link_references
+from mdpo.md import attribute_text, parse_link_references
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
@@ -797,11 +797,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_aspan_href = details['href'][0][1]
+            self._current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == self._current_aspan_href
@@ -825,13 +825,12 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['src'] = details['src'][0][1]
+            self._current_imgspan['title'] = attribute_text(details['title'])
+            self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['text'] = ''
             self._current_imgspan['nested'] = 0
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.U:
             self._inside_uspan += 1
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -881,21 +880,27 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_text == self._current_aspan_href:
+            elif self._current_aspan_href and (
+                self._current_aspan_text == self._current_aspan_href
+            ):
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
                 if details['title']:
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        attribute_text(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += '>'
-            elif self._current_aspan_href:
+            elif self._current_aspan_href is not None:
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
                     f'({self._current_aspan_href}'
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        attribute_text(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += ')'
             self._current_aspan_href = None
@@ -911,9 +916,9 @@ class Po2Md:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = polib.escape(details['title'][0][1])
+                imgspan_title = polib.escape(attribute_text(details['title']))
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
-- 
2.43.0


From 51d21160bd38747f6eae2b4beaceec2bf9db6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 46/80] fix: keep the whole info strings of fenced code blocks
 in po2md

---
 src/mdpo/po2md/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 36e77ba..00349a7 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -556,8 +556,7 @@ class Po2Md:
             if details['fence_char'] is not None:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
-                if details['lang']:
-                    self.current_line += details['lang'][0][1]
+                self.current_line += attribute_text(details['info'])
             else:
                 self._inside_indented_codeblock = True
 
-- 
2.43.0


From 7ff49a0f59b886e4d870a8179c3eaa7fabb81b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 47/80] fix: write fences longer than those in the content of
 code blocks in po2md

---
 src/mdpo/po2md/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 00349a7..5d08d66 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -110,6 +110,7 @@ class Po2Md:
 
         '_inside_htmlblock',
         '_inside_codeblock',
+        '_codeblock_start_line',
         '_inside_indented_codeblock',
         '_inside_pblock',
         '_inside_liblock',
@@ -317,6 +318,7 @@ class Po2Md:
             None,  # a mdpo command has been found in the HTML block
         ]
         self._inside_codeblock = False
+        self._codeblock_start_line = 0
         self._inside_indented_codeblock = False
         self._inside_hblock = False
         self._inside_pblock = False
@@ -560,6 +562,8 @@ class Po2Md:
             else:
                 self._inside_indented_codeblock = True
 
+            # position of the line of the opening fence
+            self._codeblock_start_line = len(self.outputlines)
             if self.current_line:
                 self._save_current_line()
         elif block is md4c.BlockType.H:
@@ -682,7 +686,17 @@ class Po2Md:
             self.current_line = self.current_line.rstrip('\n')
             self._save_current_line()
             if not self._inside_indented_codeblock:
-                fence_chars = details['fence_char'] * 3
+                start_fence = fence_chars = details['fence_char'] * 3
+                start_line = self._codeblock_start_line
+                code = '\n'.join(self.outputlines[start_line + 1:])
+                while fence_chars in code:
+                    # the content of the block can not close it
+                    fence_chars += details['fence_char']
+                self.outputlines[start_line] = (
+                    self.outputlines[start_line].replace(
+                        start_fence, fence_chars, 1,
+                    )
+                )
                 self.current_line += f'{indent}{fence_chars}'
 
             self._save_current_line()
-- 
2.43.0


From 79508c581b526a1c4ab3afabb299bb496ebc4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 48/80] fix: write destinations and titles of links that are
 parsed as such

Destinations with spaces or unbalanced parentheses and titles with line
breaks were written as other text.
---
 src/mdpo/md.py             | 43 ++++++++++++++++++++++++++++++++++++++
 src/mdpo/md2po/__init__.py | 26 +++++++++++++----------
 src/mdpo/po2md/__init__.py | 41 ++++++++++++++++++------------------
 3 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 98f2cb5..4d20d23 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -21,6 +21,49 @@ def attribute_text(attribute):
     return ''.join(text for _, text in attribute or [])
 
 
+def link_destination(href, title=''):
+    """Get the Markdown representation of the destination of a link or image.
+
+    Args:
+        href (str): Destination.
+        title (str): Title which follows the destination.
+
+    Returns:
+        str: The destination, enclosed between ``<`` and ``>`` if it would not
+        be parsed as a destination otherwise.
+    """
+    import re
+
+    depth = 0
+    for character in href:
+        depth += {'(': 1, ')': -1}.get(character, 0)
+        if depth < 0 or character.isspace():
+            break
+    else:
+        if depth == 0 and not href.startswith('<') and (href or not title):
+            return href
+    escaped_href = re.sub(r'([<>])', r'\\\1', href)
+    return f'<{escaped_href}>'
+
+
+def link_title(title):
+    """Get the Markdown representation of the title of a link or image.
+
+    Args:
+        title (str): Title.
+
+    Returns:
+        str: The title enclosed between double quotes, preceded by a space, or
+        an empty string if there is no title.
+    """
+    if not title:
+        return ''
+    escaped_title = (
+        title.replace('\\', r'\\').replace('"', r'\"').replace('\n', ' ')
+    )
+    return f' "{escaped_title}"'
+
+
 def parse_link_references(content):
     """Parses link references found in a Markdown content.
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 914927d..658dbd4 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -18,7 +18,12 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_files_or_content,
 )
-from mdpo.md import attribute_text, parse_link_references
+from mdpo.md import (
+    attribute_text,
+    link_destination,
+    link_title,
+    parse_link_references,
+)
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
@@ -823,14 +828,13 @@ class Md2Po:
                 title = attribute_text(details['title'])
                 if href and self._current_aspan_text == href:
                     # autolink vs link clash (see implementation notes)
-                    self.current_msgid += f'<{self._current_aspan_text}'
-                    if title:
-                        self.current_msgid += f' "{polib.escape(title)}"'
-                    self.current_msgid += '>'
+                    self.current_msgid += (
+                        f'<{self._current_aspan_text}{link_title(title)}>'
+                    )
                 else:
-                    title_part = f' "{polib.escape(title)}"' if title else ''
                     self.current_msgid += (
-                        f'[{self._current_aspan_text}]({href}{title_part})'
+                        f'[{self._current_aspan_text}]'
+                        f'({link_destination(href, title)}{link_title(title)})'
                     )
             self._inside_aspan = False
             self._current_aspan_text = ''
@@ -868,10 +872,10 @@ class Md2Po:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
-                if imgspan_title:
-                    img_markup += f' "{polib.escape(imgspan_title)}"'
-                img_markup += ')'
+                img_markup += (
+                    f'({link_destination(imgspan_src, imgspan_title)}'
+                    f'{link_title(imgspan_title)})'
+                )
 
             self._current_imgspan = {}
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 5d08d66..ab6b115 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -16,7 +16,12 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_file_content_if_is_file,
 )
-from mdpo.md import attribute_text, parse_link_references
+from mdpo.md import (
+    attribute_text,
+    link_destination,
+    link_title,
+    parse_link_references,
+)
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
@@ -897,25 +902,19 @@ class Po2Md:
                 self._current_aspan_text == self._current_aspan_href
             ):
                 # autolink vs link clash (see implementation notes)
-                self.current_msgid += f'<{self._current_aspan_text}'
-                if details['title']:
-                    escaped_title = polib.escape(
-                        attribute_text(details['title']),
-                    )
-                    self.current_msgid += f' "{escaped_title}"'
-                self.current_msgid += '>'
+                title = attribute_text(details['title'])
+                self.current_msgid += (
+                    f'<{self._current_aspan_text}{link_title(title)}>'
+                )
             elif self._current_aspan_href is not None:
+                title = attribute_text(details['title'])
+                if title:
+                    self._aimg_title_inside_current_msgid = True
+                destination = link_destination(self._current_aspan_href, title)
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
-                    f'({self._current_aspan_href}'
+                    f'({destination}{link_title(title)})'
                 )
-                if details['title']:
-                    self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(
-                        attribute_text(details['title']),
-                    )
-                    self.current_msgid += f' "{escaped_title}"'
-                self.current_msgid += ')'
             self._current_aspan_href = None
             self._inside_aspan = False
             self._current_aspan_text = ''
@@ -931,7 +930,7 @@ class Po2Md:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = polib.escape(attribute_text(details['title']))
+                imgspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
@@ -947,10 +946,10 @@ class Po2Md:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
-                if imgspan_title:
-                    img_markup += f' "{imgspan_title}"'
-                img_markup += ')'
+                img_markup += (
+                    f'({link_destination(imgspan_src, imgspan_title)}'
+                    f'{link_title(imgspan_title)})'
+                )
 
             if self._inside_aspan:
                 self._current_aspan_text += img_markup
-- 
2.43.0


From 8b9c88fe7ded61e2d2b54bf8454412a363444a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 49/80] fix: discard the messages skipped by 'msgid' events

Their text was joined to the one of the next message.
---
 src/mdpo/md2po/__init__.py | 1 +
 src/mdpo/po2md/__init__.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 658dbd4..d1766cc 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -477,6 +477,7 @@ class Md2Po:
             self.current_tcomment,
             ['fuzzy'] if fuzzy else [],
         ):
+            self.current_msgid = ''
             return
 
         if self.current_msgid:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ab6b115..68b9a33 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -454,6 +454,7 @@ class Po2Md:
             self.current_tcomment,
             [],
         ):
+            self.current_msgid = ''
             return
 
         if (not self.disable and not self.disable_next_block) or \
-- 
2.43.0


From d3c020346f7a09adfbaa1580d2202f37e7e0ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 50/80] fix: honour commands and events for link and image
 titles in plaintext mode

---
 src/mdpo/md2po/__init__.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d1766cc..68a2809 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -506,6 +506,21 @@ class Md2Po:
             self.current_tcomment = None
             self.current_msgctxt = None
 
+    def _save_title(self, title):
+        # raise 'msgid' event
+        if raise_skip_event(
+            self.events, 'msgid', self, title, '', None, None, [],
+        ):
+            return
+
+        if (not self.disable_next_block and not self.disable) or \
+                self.enable_next_block:
+            self._save_msgid(title)
+        else:
+            self.disabled_entries.append(
+                polib.POEntry(msgid=title, msgstr=self.msgstr),
+            )
+
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
         if raise_skip_event(
@@ -703,7 +718,7 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title']:
-            self._save_msgid(attribute_text(details['title']))
+            self._save_title(attribute_text(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From 74534e50ae0e5f8382e64ff9f0c4e43369082eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 51/80] fix: keep all the lines of code blocks inside lists and
 quotes in po2md

Only the first line of the code blocks inside lists was indented, those
inside quotes were written without their marks, empty lines at the end were
lost and indented code blocks became part of the previous paragraph.
---
 src/mdpo/po2md/__init__.py | 79 ++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 68b9a33..a3da5fd 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -115,7 +115,6 @@ class Po2Md:
 
         '_inside_htmlblock',
         '_inside_codeblock',
-        '_codeblock_start_line',
         '_inside_indented_codeblock',
         '_inside_pblock',
         '_inside_liblock',
@@ -323,7 +322,6 @@ class Po2Md:
             None,  # a mdpo command has been found in the HTML block
         ]
         self._inside_codeblock = False
-        self._codeblock_start_line = 0
         self._inside_indented_codeblock = False
         self._inside_hblock = False
         self._inside_pblock = False
@@ -552,26 +550,24 @@ class Po2Md:
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
-            self._inside_codeblock = True
-            indent = ''
-
-            if self._inside_liblock:
+            is_indented = details['fence_char'] is None
+            if self._current_list_type:
+                after_text = (
+                    self.current_msgid
+                    or not self._inside_liblock
+                    or not self._inside_liblock_first_p
+                )
                 self._save_current_msgid()
                 if self.current_line:
                     self._save_current_line()
-                indent += '   ' * len(self._current_list_type)
-
-            if details['fence_char'] is not None:
-                fence_chars = details['fence_char'] * 3
-                self.current_line += f'{indent}{fence_chars}'
-                self.current_line += attribute_text(details['info'])
-            else:
-                self._inside_indented_codeblock = True
-
-            # position of the line of the opening fence
-            self._codeblock_start_line = len(self.outputlines)
-            if self.current_line:
+                if is_indented and after_text:
+                    # an indented code block can not interrupt a paragraph
+                    self._save_current_line()
+            elif self.current_line.strip('> '):
                 self._save_current_line()
+            self.current_line = ''
+            self._inside_codeblock = True
+            self._inside_indented_codeblock = is_indented
         elif block is md4c.BlockType.H:
             if self._inside_liblock and self.current_msgid:
                 # text of the tight list item which contains the heading
@@ -686,30 +682,35 @@ class Po2Md:
             self._save_current_msgid()
             self._inside_codeblock = False
 
-            indent = ''
-            if self._inside_liblock:
-                indent += '   ' * len(self._current_list_type)
-            self.current_line = self.current_line.rstrip('\n')
-            self._save_current_line()
+            code = self.current_line
+            lines = code.split('\n')
+            if not lines[-1]:
+                lines.pop()
             if not self._inside_indented_codeblock:
-                start_fence = fence_chars = details['fence_char'] * 3
-                start_line = self._codeblock_start_line
-                code = '\n'.join(self.outputlines[start_line + 1:])
+                fence_chars = details['fence_char'] * 3
                 while fence_chars in code:
                     # the content of the block can not close it
                     fence_chars += details['fence_char']
-                self.outputlines[start_line] = (
-                    self.outputlines[start_line].replace(
-                        start_fence, fence_chars, 1,
-                    )
-                )
-                self.current_line += f'{indent}{fence_chars}'
+                info = attribute_text(details['info'])
+                lines = [f'{fence_chars}{info}', *lines, fence_chars]
 
-            self._save_current_line()
-            # prevent two newlines after indented code block
-            if not self._inside_liblock and (
-                    not self._inside_indented_codeblock
-            ):
+            prefix = '> ' if self._inside_quoteblock else ''
+            if self._current_list_type:
+                indent = 3 * len(self._current_list_type)
+                if self._inside_indented_codeblock and (
+                    self._current_list_type[-1][0] == 'ul'
+                ):
+                    indent -= 1  # column of the content of the item
+                prefix += ' ' * indent
+            for line in lines:
+                self.outputlines.append(
+                    f'{prefix}{line}' if line else prefix.rstrip(),
+                )
+            self.current_line = ''
+            if not self._current_list_type:
+                self.current_line = prefix
+                self._save_current_line()
+            elif self._inside_indented_codeblock:
                 self._save_current_line()
             self._inside_indented_codeblock = False
         elif block is md4c.BlockType.H:
@@ -1035,10 +1036,6 @@ class Po2Md:
                     return
                 self.current_msgid += text
             else:
-                if self._inside_liblock:
-                    indent = '   ' * len(self._current_list_type)
-                    if self.current_line[:len(indent) + 1] != indent:
-                        self.current_line += indent
                 self.current_msgid += text
         elif not self._process_command(text):
             self.current_line += text
-- 
2.43.0


From 7c1cc537c4eaa4ac5922bdbd48a949b70eb644fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 52/80] fix: execute all the functions passed by --event for
 the same event

---
 src/mdpo/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/cli.py b/src/mdpo/cli.py
index 6da1f7d..a0772af 100644
--- a/src/mdpo/cli.py
+++ b/src/mdpo/cli.py
@@ -329,7 +329,7 @@ def parse_event_argument(value):
             ``event_name: path/to/file.py::func``.
 
     Returns:
-        dict: Mapping of event names and `file::function` paths.
+        dict: Mapping of event names and lists of `file::function` paths.
     """
     events = {}
     for event_name_filefunc in value:
@@ -342,7 +342,7 @@ def parse_event_argument(value):
             )
             sys.exit(1)
         event_name, filefunc = event_name_filefunc.split(':', maxsplit=1)
-        events[event_name.strip()] = filefunc.strip()
+        events.setdefault(event_name.strip(), []).append(filefunc.strip())
     return events
 
 
-- 
2.43.0


From 7a82263faebbdb195483aa51bc0c0407f10cc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 53/80] fix: keep the blocks of list items and quotes inside
 them in po2md

---
 src/mdpo/po2md/__init__.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a3da5fd..318c204 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -573,6 +573,7 @@ class Po2Md:
                 # text of the tight list item which contains the heading
                 self._save_current_msgid()
                 self._save_current_line()
+            if self._current_list_type and not self.current_line:
                 self.current_line += '   ' * len(self._current_list_type)
             self._inside_hblock = True
             hash_signs = '#' * details['level']
@@ -584,6 +585,8 @@ class Po2Md:
                     self._save_current_msgid()
                     if not self._ol_marks[-1][0]:
                         self._save_current_line()
+                        if self._inside_quoteblock:
+                            self.current_line += '> '
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
                 self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
@@ -707,6 +710,7 @@ class Po2Md:
                     f'{prefix}{line}' if line else prefix.rstrip(),
                 )
             self.current_line = ''
+            self._inside_liblock_first_p = False
             if not self._current_list_type:
                 self.current_line = prefix
                 self._save_current_line()
@@ -724,7 +728,11 @@ class Po2Md:
             if self._inside_quoteblock:
                 self.current_line += '> '
             self._inside_hblock = False
+            self._inside_liblock_first_p = False
         elif block is md4c.BlockType.LI:
+            if self.current_msgid and not self.current_line:
+                # text of the item after other blocks
+                self.current_line += '   ' * len(self._current_list_type)
             self._save_current_msgid()
             self._inside_liblock = False
             if self.current_line:
@@ -732,6 +740,10 @@ class Po2Md:
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
             self._current_list_type.pop()
+            if self._current_list_type:
+                # back in the item which contains the list
+                self._inside_liblock = True
+                self._inside_liblock_first_p = False
             if self._inside_quoteblock:
                 self.current_line += '> '
             if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
@@ -739,6 +751,10 @@ class Po2Md:
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
+            if self._current_list_type:
+                # back in the item which contains the list
+                self._inside_liblock = True
+                self._inside_liblock_first_p = False
             if self._inside_quoteblock:
                 self.current_line += '> '
             if not self._ol_marks and self.outputlines[-1]:
@@ -772,14 +788,24 @@ class Po2Md:
                 self.outputlines.pop()
             if not self._inside_liblock:
                 self._save_current_line()
+            self._inside_liblock_first_p = False
             self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
-            if not self._inside_quoteblock and not self._current_list_type:
+            if self._inside_quoteblock:
+                self.current_line = '>'
+            if self._inside_quoteblock or not self._current_list_type:
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
             if not self._inside_htmlblock[1]:
-                self.current_line += '\n'
+                if self._current_list_type or self._inside_quoteblock:
+                    self.current_line = self.current_line.rstrip('\n')
+                    self._save_current_line()
+                    if self._inside_quoteblock:
+                        self.current_line = '>'
+                    self._save_current_line()
+                else:
+                    self.current_line += '\n'
             else:
                 self.current_line = self.current_line.rstrip('\n')
             self._inside_htmlblock[0] = False
@@ -1038,6 +1064,14 @@ class Po2Md:
             else:
                 self.current_msgid += text
         elif not self._process_command(text):
+            if (
+                text != '\n'
+                and self.current_line.split('\n')[-1] == ''
+            ):
+                # line of a HTML block, maybe inside an item or a quote
+                if self._inside_quoteblock:
+                    self.current_line += '> '
+                self.current_line += '   ' * len(self._current_list_type)
             self.current_line += text
 
     def _append_link_references(self):
-- 
2.43.0


From 3d73528bbdd406720ebfed1c829c967311bb7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 54/80] fix: separate HTML from the blocks after it in po2md

---
 src/mdpo/po2md/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 318c204..015c1aa 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -538,6 +538,11 @@ class Po2Md:
         ):
             return
 
+        if self.current_line.endswith('\n'):
+            # HTML block before this one
+            self.current_line = self.current_line.rstrip('\n') + '\n'
+            self._save_current_line()
+
         if (
             self._inside_quoteblock
             and (not self.current_line or self.current_line[0] != '>')
@@ -808,6 +813,10 @@ class Po2Md:
                     self.current_line += '\n'
             else:
                 self.current_line = self.current_line.rstrip('\n')
+                if '<' in self.current_line:
+                    # other HTML before the command
+                    self.current_line += '\n'
+                    self._save_current_line()
             self._inside_htmlblock[0] = False
 
     def enter_span(self, span, details):
-- 
2.43.0


From c08e2419c2b7528fd1eab41e4945b10da06305c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 55/80] fix: delimit code spans by their whole content

---
 src/mdpo/md2po/__init__.py | 59 +++++++++++++++++---------------------
 src/mdpo/po2md/__init__.py | 55 +++++++++++++++++------------------
 2 files changed, 54 insertions(+), 60 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 68a2809..387b58b 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -134,7 +134,6 @@ class Md2Po:
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
-        '_codespan_backticks',
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
@@ -387,7 +386,6 @@ class Md2Po:
         self._uls_deep = 0
 
         self._codespan_start_index = None
-        self._codespan_backticks = None
 
         self._inside_aspan = False
         self._current_aspan_text = ''
@@ -796,6 +794,21 @@ class Md2Po:
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
+    def _escape_codespan(self, text, index):
+        start, end = (self.code_start_string, self.code_end_string)
+        code = text[index + 1:-len(end)]
+        backticks = min_not_max_chars_in_a_row(start, code) - 1
+        # code delimited by backticks or spaces must be separated
+        space = ' ' if (
+            code.startswith(start) or code.endswith(end) or (
+                code.startswith(' ') and code.endswith(' ') and code.strip()
+            )
+        ) else ''
+        return (
+            f'{text[:index]}{backticks * start}{text[index]}'
+            f'{space}{code}{space}{(backticks + 1) * end}'
+        )
+
     def leave_span(self, span, details):
         # raise 'leave_span' event
         if raise_skip_event(self.events, 'leave_span', self, span, details):
@@ -856,18 +869,21 @@ class Md2Po:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
+            index = self._codespan_start_index
             self._codespan_start_index = None
 
-            # add backticks at the end for escape internal backticks
+            # fix backticks for codespan start and end to escape
+            # internal backticks
             if self._inside_aspan:
-                self._current_aspan_text += (
-                    self._codespan_backticks * self.code_end_string
+                self._current_aspan_text = self._escape_codespan(
+                    self._current_aspan_text,
+                    index,
                 )
             else:
-                self.current_msgid += (
-                    self._codespan_backticks * self.code_end_string
+                self.current_msgid = self._escape_codespan(
+                    self.current_msgid,
+                    index,
                 )
-            self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
@@ -923,32 +939,11 @@ class Md2Po:
                         self._current_imgspan['text'] += text.replace(
                             '\n', ' ')
                         return
-                    if self._inside_codespan:
-                        # fix backticks for codespan start and end to escape
-                        # internal backticks
-                        self._codespan_backticks = min_not_max_chars_in_a_row(
-                            self.code_start_string,
-                            text,
-                        ) - 1
-                        backticks = (
-                            self._codespan_backticks * self.code_start_string
-                        )
-                        index = self._codespan_start_index
-                        if self._inside_aspan:
-                            self._current_aspan_text = (
-                                f'{self._current_aspan_text[:index]}'
-                                f'{backticks}'
-                                f'{self._current_aspan_text[index:]}{text}'
-                            )
-                            return
-                        self.current_msgid = (
-                            f'{self.current_msgid[:index]}'
-                            f'{backticks}'
-                            f'{self.current_msgid[index:]}'
-                        )
-                    elif self._inside_aspan:
+                    if self._inside_aspan:
                         self._current_aspan_text += text
                         return
+                    if self._inside_codespan:
+                        pass  # code is not escaped
                     elif text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 015c1aa..a899094 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -125,7 +125,6 @@ class Po2Md:
         '_inside_latexmath_display',
         '_inside_uspan',
         '_codespan_start_index',
-        '_codespan_backticks',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
         '_current_aspan_ref_target',
@@ -331,7 +330,6 @@ class Po2Md:
 
         self._inside_codespan = False
         self._codespan_start_index = None
-        self._codespan_backticks = None
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
@@ -891,6 +889,21 @@ class Po2Md:
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
+    def _escape_codespan(self, text, index):
+        start, end = (self.code_start_string, self.code_end_string)
+        code = text[index + 1:-len(end)]
+        backticks = min_not_max_chars_in_a_row(start, code) - 1
+        # code delimited by backticks or spaces must be separated
+        space = ' ' if (
+            code.startswith(start) or code.endswith(end) or (
+                code.startswith(' ') and code.endswith(' ') and code.strip()
+            )
+        ) else ''
+        return (
+            f'{text[:index]}{backticks * start}{text[index]}'
+            f'{space}{code}{space}{(backticks + 1) * end}'
+        )
+
     def leave_span(self, span, details):
         # raise 'leave_span' event
         if raise_skip_event(
@@ -957,12 +970,17 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            backticks = self._codespan_backticks * self.code_end_string
+            index = self._codespan_start_index
             if self._inside_aspan:
-                self._current_aspan_text += backticks
+                self._current_aspan_text = self._escape_codespan(
+                    self._current_aspan_text,
+                    index,
+                )
             else:
-                self.current_msgid += backticks
-            self._codespan_backticks = None
+                self.current_msgid = self._escape_codespan(
+                    self.current_msgid,
+                    index,
+                )
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
@@ -1024,30 +1042,11 @@ class Po2Md:
                     self._current_imgspan['text'] += text.replace(
                         '\n', ' ')
                     return
-                if self._inside_codespan:
-                    self._codespan_backticks = min_not_max_chars_in_a_row(
-                        self.code_start_string,
-                        text,
-                    ) - 1
-                    backticks = (
-                        self._codespan_backticks * self.code_start_string
-                    )
-                    index = self._codespan_start_index
-                    if self._inside_aspan:
-                        self._current_aspan_text = (
-                            f'{self._current_aspan_text[:index]}'
-                            f'{backticks}'
-                            f'{self._current_aspan_text[index:]}{text}'
-                        )
-                        return
-                    self.current_msgid = (
-                        f'{self.current_msgid[:index]}'
-                        f'{backticks}'
-                        f'{self.current_msgid[index:]}'
-                    )
-                elif self._inside_aspan:
+                if self._inside_aspan:
                     self._current_aspan_text += text
                     return
+                if self._inside_codespan:
+                    pass  # code is not escaped
                 elif text == self.italic_start_string:
                     text = self.italic_start_string_escaped
                 elif text == self.code_start_string:
-- 
2.43.0


From 1971a6f1cd8891142bf0251af47bd6e3f68672e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 56/80] fix: stay in ordered lists after the lists nested in
 them in md2po

---
 src/mdpo/md2po/__init__.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 387b58b..bbd3fc0 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -130,7 +130,6 @@ class Md2Po:
         '_inside_aspan',
         '_inside_liblock',
         '_inside_codespan',
-        '_inside_olblock',
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
@@ -141,6 +140,7 @@ class Md2Po:
         '_inside_latexmath_display_text',
         '_current_imgspan',
         '_uls_deep',
+        '_ols_deep',
     }
 
     def __init__(self, files_or_content, **kwargs):
@@ -379,11 +379,11 @@ class Md2Po:
         self._inside_pblock = False
         self._inside_liblock = False
         self._inside_hblock = False
-        self._inside_olblock = False
         self._inside_codespan = False
 
         self._quoteblocks_deep = 0
         self._uls_deep = 0
+        self._ols_deep = 0
 
         self._codespan_start_index = None
 
@@ -608,7 +608,7 @@ class Md2Po:
                 self._inside_hblock,
                 self._uls_deep,
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.P.value
@@ -617,7 +617,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.CODE.value
@@ -625,12 +625,12 @@ class Md2Po:
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
             self._uls_deep += 1
-            if self._uls_deep > 1 or self._inside_olblock:
+            if self._uls_deep > 1 or self._ols_deep:
                 # changing UL deeep
                 self._save_current_msgid()
             elif not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
@@ -639,7 +639,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.H.value
@@ -654,26 +654,26 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.OL.value
 
-            if self._inside_olblock or self._uls_deep:
+            if self._ols_deep or self._uls_deep:
                 self._save_current_msgid()
-            self._inside_olblock = True
+            self._ols_deep += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
             if not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
                 self._uls_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.HTML.value
         elif block is md4c.BlockType.TABLE and not any([
             self._quoteblocks_deep,
-            self._inside_olblock,
+            self._ols_deep,
             self._uls_deep,
         ]):
             self._current_top_level_block_number += 1
@@ -706,7 +706,7 @@ class Md2Po:
             elif block is md4c.BlockType.QUOTE:
                 self._quoteblocks_deep -= 1
             elif block is md4c.BlockType.OL:
-                self._inside_olblock = False
+                self._ols_deep -= 1
             self._save_current_msgid()
 
     def enter_span(self, span, details):
-- 
2.43.0


From 82b30e69568faea096a9c8e22ee545874ff68d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 57/80] fix: do not break headings into several lines in po2md

---
 src/mdpo/po2md/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a899094..030190d 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -489,8 +489,13 @@ class Po2Md:
 
             # Wrap lines with Unicode Line Break algorithm
             #
-            # Only execute it for text outside tables
-            if not self._inside_codeblock and not self._current_thead_aligns:
+            # Only execute it for text outside tables and headings, which
+            # can not span several lines
+            if (
+                not self._inside_codeblock
+                and not self._current_thead_aligns
+                and not self._inside_hblock
+            ):
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
@@ -499,7 +504,6 @@ class Po2Md:
 
                 if not any([
                     self._inside_liblock,
-                    self._inside_hblock,
                     self._inside_quoteblock,
                 ]):
                     translation += '\n'
-- 
2.43.0


From 1ac8f955b12aa2c46f87cea549b17bdd400feef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 58/80] fix: wrap texts with widths smaller than the
 indentation in po2md

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 030190d..0a0b743 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -499,7 +499,7 @@ class Po2Md:
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
-                    self.wrapwidth + first_line_width_diff,
+                    max(self.wrapwidth + first_line_width_diff, 1),
                 )
 
                 if not any([
-- 
2.43.0


From 40d6fe5710d0705e8eee0e646be67cf7244cf602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 59/80] fix: treat the widths smaller than one as no limit

---
 src/mdpo/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index d78c9c1..1fb026e 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -129,11 +129,11 @@ def parse_strint_0_inf(value):
     if isinstance(value, str) and value.lower() == 'nan':
         raise ValueError(f"invalid strict converting of '{value}' to number")
 
-    num = float(value)
     try:
-        return int(num) if num > 0 else INFINITE_WRAPWIDTH
+        num = int(float(value))
     except OverflowError:  # cannot convert float infinity to integer
         return INFINITE_WRAPWIDTH
+    return num if num > 0 else INFINITE_WRAPWIDTH
 
 
 def parse_wrapwidth_argument(value):
-- 
2.43.0


From 9796c2547ea9fd2edba387162a9ff004fc035435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 60/80] fix: accept all the positive widths in md2po

---
 src/mdpo/md2po/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index bbd3fc0..d0779c5 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1032,7 +1032,8 @@ class Md2Po:
         )
         self.pofile = polib.pofile(
             self.po_filepath,
-            wrapwidth=parse_wrapwidth_argument(wrapwidth),
+            # polib can not write lines shorter than 3 characters
+            wrapwidth=max(parse_wrapwidth_argument(wrapwidth), 3),
             **pofile_kwargs,
         )
 
-- 
2.43.0


From ccee3d88159fe4df48113a41519b8b34990d3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 61/80] fix: do not confuse the context '0' with the lack of
 context

---
 src/mdpo/polib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/polib.py b/src/mdpo/polib.py
index cacaccb..8261cbb 100644
--- a/src/mdpo/polib.py
+++ b/src/mdpo/polib.py
@@ -38,8 +38,8 @@ def poentry__cmp__(
             return 1
         if occ1 < occ2:
             return -1
-    msgctxt = self.msgctxt or '0'
-    othermsgctxt = other.msgctxt or '0'
+    msgctxt = self.msgctxt or ''
+    othermsgctxt = other.msgctxt or ''
     if msgctxt > othermsgctxt:
         return 1
     if msgctxt < othermsgctxt:
-- 
2.43.0


From 9469b859b3affce0e65f27c72be4967f8d398701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:31 +0000
Subject: [PATCH 62/80] fix: write a heading of several lines as one line

---
 src/mdpo/md2po/__init__.py | 2 +-
 src/mdpo/po2md/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d0779c5..3de2d81 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -952,7 +952,7 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if self._current_wikilink_target:
                     if text != self._current_wikilink_target:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0a0b743..1583446 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1060,7 +1060,7 @@ class Po2Md:
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
 
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if text == self._current_aspan_href:
                     # self-referenced wiki or inline link
-- 
2.43.0


From efd2375dfed09194e84d248e19af92cb11e21a0e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 63/80] fix: read and write the titles and destinations of link
 references whole

---
 src/mdpo/md.py             | 66 ++++++++++++++++++++++++++++++--------
 src/mdpo/md2po/__init__.py |  7 ++--
 src/mdpo/po2md/__init__.py |  9 +++---
 3 files changed, 60 insertions(+), 22 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 4d20d23..1de938c 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -2,7 +2,11 @@
 
 
 LINK_REFERENCE_REGEX = (
-    r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
+    r'^\[((?:[^\]\\]|\\.)+)\]:'
+    r'\s*(<(?:[^<>\\]|\\.)*>|[^\s<]\S*)'
+    r'(?:\s+('
+    r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|\((?:[^()\\]|\\.)*\)'
+    r'))?\s*$'
 )
 
 
@@ -64,6 +68,47 @@ def link_title(title):
     return f' "{escaped_title}"'
 
 
+def match_link_reference(line):
+    """Get the parts of a line which is the definition of a link reference.
+
+    Args:
+        line (str): Line, without indentation.
+
+    Returns:
+        tuple: Target, href and title (``None`` if has not title) of the
+        definition, or ``None`` if the line is another thing.
+    """
+    import re
+
+    match = re.search(LINK_REFERENCE_REGEX, line)
+    if not match:
+        return None
+    target, href, title = match.groups()
+    if href.startswith('<'):
+        href = href[1:-1]
+    unescape_re = r'\\([!-/:-@\[-`{-~])'
+    return (
+        target,
+        re.sub(unescape_re, r'\1', href),
+        re.sub(unescape_re, r'\1', title[1:-1]) if title else None,
+    )
+
+
+def link_reference_definition(target, href, title):
+    """Get the Markdown representation of the definition of a link reference.
+
+    Args:
+        target (str): Target of the link reference.
+        href (str): Destination.
+        title (str): Title, if any.
+
+    Returns:
+        str: Definition of the link reference.
+    """
+    destination = link_destination(href, title) or '<>'
+    return f'[{target}]: {destination}{link_title(title)}'
+
+
 def parse_link_references(content):
     """Parses link references found in a Markdown content.
 
@@ -74,17 +119,13 @@ def parse_link_references(content):
         list: Tuples with 3 values, target, href and title for each link
         reference.
     """
-    import re
-
-    link_reference_re = re.compile(LINK_REFERENCE_REGEX)
-
     response = []
     for line in content.splitlines():
         linestrip = line.strip()
         if linestrip and linestrip.startswith('['):
-            match = re.search(link_reference_re, linestrip)
-            if match:
-                response.append(match.groups())
+            link_reference = match_link_reference(linestrip)
+            if link_reference:
+                response.append(link_reference)
     return response
 
 
@@ -104,7 +145,6 @@ def solve_link_reference_targets(translations):
     import re
 
     link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
-    link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
     solutions = {}
 
@@ -118,13 +158,13 @@ def solve_link_reference_targets(translations):
     # discover link reference definitions
     for msgid, msgstr in translations.items():
         if msgid.startswith('['):  # filter for performance improvement
-            msgid_match = re.search(link_reference_re, msgid.lstrip(' '))
+            msgid_match = match_link_reference(msgid.lstrip(' '))
             if msgid_match:
-                msgstr_match = re.search(link_reference_re, msgstr.lstrip(' '))
+                msgstr_match = match_link_reference(msgstr.lstrip(' '))
                 if msgstr_match:
                     link_references_text_targets.append((
-                        msgid_match.groups(),
-                        msgstr_match.groups(),
+                        msgid_match,
+                        msgstr_match,
                     ))
         msgid_matchs = re.findall(link_refereced_link_re, msgid)
         if msgid_matchs:
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 3de2d81..d5dd249 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -21,6 +21,7 @@ from mdpo.io import (
 from mdpo.md import (
     attribute_text,
     link_destination,
+    link_reference_definition,
     link_title,
     parse_link_references,
 )
@@ -989,10 +990,8 @@ class Md2Po:
                     if skip:
                         continue
 
-                self.current_msgid = '[{}]:{}{}'.format(
-                    target,
-                    f' {href}' if href else '',
-                    f' "{title}"' if title else '',
+                self.current_msgid = link_reference_definition(
+                    target, href, title,
                 )
                 self._save_current_msgid(
                     msgstr=self.current_msgid,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 1583446..6392b7d 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -19,6 +19,7 @@ from mdpo.io import (
 from mdpo.md import (
     attribute_text,
     link_destination,
+    link_reference_definition,
     link_title,
     parse_link_references,
 )
@@ -1103,16 +1104,14 @@ class Po2Md:
                             skip = True
                     if skip:
                         continue
-                title_part = f' "{title}"' if title else ''
-                href_title = f' {href}{title_part}'
-                if href_title in added_references:
+                if (href, title) in added_references:
                     continue
 
-                msgid = f'[{target}]:{href_title}'
+                msgid = link_reference_definition(target, href, title)
                 self.outputlines.append(
                     self._translate_msgid(msgid, None, None),
                 )
-                added_references.append(href_title)
+                added_references.append((href, title))
             self.outputlines.append('')
 
     def translate(
-- 
2.43.0


From 64a88ea7fef84e7b826bb995e9712974238cd25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 64/80] fix: do not add the title of a link reference to links
 without title

---
 src/mdpo/md2po/__init__.py | 8 ++++----
 src/mdpo/po2md/__init__.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d5dd249..554ff00 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -764,8 +764,8 @@ class Md2Po:
                         self._current_aspan_ref_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == current_aspan_href:
+                for target, href, title in self.link_references:
+                    if href == current_aspan_href and not title:
                         self._current_aspan_ref_target = target
                         break
 
@@ -895,8 +895,8 @@ class Md2Po:
                         referenced_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
+                for target, href, title in self.link_references:
+                    if href == imgspan_src and not title:
                         referenced_target = target
                         break
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6392b7d..0706a6e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -868,8 +868,8 @@ class Po2Md:
                         self._current_aspan_ref_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == self._current_aspan_href:
+                for target, href, title in self.link_references:
+                    if href == self._current_aspan_href and not title:
                         self._current_aspan_ref_target = target
                         break
         elif span is md4c.SpanType.CODE:
@@ -996,8 +996,8 @@ class Po2Md:
                         referenced_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
+                for target, href, title in self.link_references:
+                    if href == imgspan_src and not title:
                         referenced_target = target
                         break
 
-- 
2.43.0


From b701adc7a4fa239d5d6e3d179942919cb822d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 65/80] fix: do not take lines of fenced code blocks as link
 references

---
 src/mdpo/md.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 1de938c..853d8a1 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -119,10 +119,19 @@ def parse_link_references(content):
         list: Tuples with 3 values, target, href and title for each link
         reference.
     """
+    import re
+
     response = []
+    fence = None  # characters which open the current fenced code block
     for line in content.splitlines():
         linestrip = line.strip()
-        if linestrip and linestrip.startswith('['):
+        if fence:
+            if linestrip.startswith(fence) and not linestrip.strip(fence[0]):
+                fence = None
+        elif linestrip.startswith(('```', '~~~')):
+            match = re.match(r'`{3,}(?=[^`]*$)|~{3,}', linestrip)
+            fence = match.group() if match else None
+        elif linestrip.startswith('['):
             link_reference = match_link_reference(linestrip)
             if link_reference:
                 response.append(link_reference)
-- 
2.43.0


From 8a183b22a76cffd9877b992b6f1bc6faf4664388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:48 +0000
Subject: [PATCH 66/80] fix: do not write as HTML tags the links whose text is
 a relative destination

---
 docs/dev/implementation-notes.rst |  2 +-
 docs/rationale.rst                |  4 ++--
 src/mdpo/md.py                    | 14 ++++++++++++++
 src/mdpo/md2po/__init__.py        |  3 ++-
 src/mdpo/po2md/__init__.py        |  4 +++-
 5 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/docs/dev/implementation-notes.rst b/docs/dev/implementation-notes.rst
index 07f0612..34e0a71 100644
--- a/docs/dev/implementation-notes.rst
+++ b/docs/dev/implementation-notes.rst
@@ -17,7 +17,7 @@ like ``[title](https://github.com)``.
 
 MD4C parser doesn't distinguish between an autolink and a link whose text and
 destination is the same. So, mdpo will treat all links whose text and
-destination is the same as autolinks.
+destination is the same URI as autolinks.
 
 If a link has inside his text markup characters, even if its content if the
 same as its target, will be treated as different and rendered as a link. So,
diff --git a/docs/rationale.rst b/docs/rationale.rst
index a533152..f031efa 100644
--- a/docs/rationale.rst
+++ b/docs/rationale.rst
@@ -58,8 +58,8 @@ the text that needs to be translated, including markdown characters:
   ```Code text```.
 * ``[Link text](target)`` is not changed if the text is different than the
   target, is dumped into msgids as is. In the case that link text and target
-  are equal, is converted to an `autolink`_ and dumped into msgids as
-  ``<link>``.
+  are equal and are an URI, is converted to an `autolink`_ and dumped into
+  msgids as ``<link>``.
 * Images as ``![Image alternative text](/target.ext "Image title text")``,
   are not changed, but included as is.
 * ``~~Strikethrough text~~`` is not changed, is dumped into msgids as
diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 853d8a1..5500178 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -25,6 +25,20 @@ def attribute_text(attribute):
     return ''.join(text for _, text in attribute or [])
 
 
+def is_uri(href):
+    """Indicates if a destination is an absolute URI, so can be an autolink.
+
+    Args:
+        href (str): Destination of a link.
+
+    Returns:
+        bool: If the destination can be written between ``<`` and ``>``.
+    """
+    import re
+
+    return bool(re.match(r'[A-Za-z][A-Za-z0-9+.-]{1,31}:[^\s<>]*$', href))
+
+
 def link_destination(href, title=''):
     """Get the Markdown representation of the destination of a link or image.
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 554ff00..e603a3d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -20,6 +20,7 @@ from mdpo.io import (
 )
 from mdpo.md import (
     attribute_text,
+    is_uri,
     link_destination,
     link_reference_definition,
     link_title,
@@ -856,7 +857,7 @@ class Md2Po:
             else:
                 href = attribute_text(details['href'])
                 title = attribute_text(details['title'])
-                if href and self._current_aspan_text == href:
+                if self._current_aspan_text == href and is_uri(href):
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += (
                         f'<{self._current_aspan_text}{link_title(title)}>'
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0706a6e..ba785df 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -18,6 +18,7 @@ from mdpo.io import (
 )
 from mdpo.md import (
     attribute_text,
+    is_uri,
     link_destination,
     link_reference_definition,
     link_title,
@@ -953,8 +954,9 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_href and (
+            elif (
                 self._current_aspan_text == self._current_aspan_href
+                and is_uri(self._current_aspan_href)
             ):
                 # autolink vs link clash (see implementation notes)
                 title = attribute_text(details['title'])
-- 
2.43.0


From a715e9aab5147ba0bb3310393415d354a3a06867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:49 +0000
Subject: [PATCH 67/80] fix: use the first definition of a repeated link
 reference

---
 src/mdpo/md.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 5500178..eb40aa0 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -135,7 +135,7 @@ def parse_link_references(content):
     """
     import re
 
-    response = []
+    response, labels = [], set()
     fence = None  # characters which open the current fenced code block
     for line in content.splitlines():
         linestrip = line.strip()
@@ -148,7 +148,10 @@ def parse_link_references(content):
         elif linestrip.startswith('['):
             link_reference = match_link_reference(linestrip)
             if link_reference:
-                response.append(link_reference)
+                label = ' '.join(link_reference[0].casefold().split())
+                if label not in labels:  # the first definition is used
+                    labels.add(label)
+                    response.append(link_reference)
     return response
 
 
-- 
2.43.0


From 41d63d80563146d6d1086aaf7a3e2bad54bb3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:51 +0000
Subject: [PATCH 68/80] fix: do not apply contexts and comments of the text to
 link references

---
 src/mdpo/md2po/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index e603a3d..3fc342c 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -978,6 +978,8 @@ class Md2Po:
         if self.link_references:
             self.disable_next_block = False
             self.disable = False
+            self.current_tcomment = None
+            self.current_msgctxt = None
 
             # 'link_reference' event
             pre_events = self.events.get('link_reference')
-- 
2.43.0


From ab93cabba71b48cfbafdb4c392d73313fcefacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 69/80] fix: translate in HTML pages the links and images of
 every form of link reference

---
 src/mdpo/md.py                 | 124 +++++++++++----------------------
 src/mdpo/mdpo2html/__init__.py |  50 ++++++++-----
 2 files changed, 71 insertions(+), 103 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index eb40aa0..edd5107 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -155,7 +155,7 @@ def parse_link_references(content):
     return response
 
 
-def solve_link_reference_targets(translations):
+def solve_link_reference_targets(translations, messages=None):
     """Solve link reference targets in markdown blocks.
 
     Given a dictionary of msgid/msgstr translations, those link references
@@ -163,98 +163,52 @@ def solve_link_reference_targets(translations):
 
     Args:
         translations (dict): Mapping of msgid-msgstr entries from which
-            the resolved translations will be extracted.
+            the link reference definitions will be extracted.
+        messages (dict): Mapping of msgid-msgstr entries whose links will be
+            solved. By default, those of ``translations``.
 
     Returns:
         dict: New created messages with solved link reference targets.
     """
     import re
 
-    link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
-
-    solutions = {}
-
-    # dictionary with defined link references and their targets
-    link_references_text_targets = []
-
-    # compound by dictionaries with `original_msgid`, `original_msgstr` and
-    # `link_reference_matchs`
-    msgid_msgstrs_with_links = []
+    referenced_link_re = re.compile(
+        r'\[([^\[\]]+)\](?:\[([^\[\]]+)\])?(?![\[(:])',
+    )
 
     # discover link reference definitions
+    msgid_definitions, msgstr_definitions = {}, {}
     for msgid, msgstr in translations.items():
         if msgid.startswith('['):  # filter for performance improvement
-            msgid_match = match_link_reference(msgid.lstrip(' '))
-            if msgid_match:
-                msgstr_match = match_link_reference(msgstr.lstrip(' '))
-                if msgstr_match:
-                    link_references_text_targets.append((
-                        msgid_match,
-                        msgstr_match,
-                    ))
-        msgid_matchs = re.findall(link_refereced_link_re, msgid)
-        if msgid_matchs:
-            msgstr_matchs = re.findall(link_refereced_link_re, msgstr)
-            if msgstr_matchs:
-                msgid_msgstrs_with_links.append((
-                    msgid, msgstr, msgid_matchs, msgstr_matchs,
-                ))
-
-    # original msgid, original msgstr,
-    # msgid link reference matchs, msgstr link reference matchs
-    for (
-            orig_msgid, orig_msgstr, msgid_linkr_groups, msgstr_linkr_groups,
-    ) in msgid_msgstrs_with_links:
-        # search if msgid and link reference matchs are inside
-        # `link_references_text_targets`
-        #
-        # if so, replace in original messages link referenced targets with
-        # real targets and store them in solutions
-        new_msgid, new_msgstr = (None, None)
-
-        for msgid_linkr_group in msgid_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[0][0] == msgid_linkr_group[1]:
-                    replacer = (
-                        f'[{msgid_linkr_group[0]}][{msgid_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgid_linkr_group[0]}]'
-                        f'({link_reference_text_targets[0][1]})'
-                    )
-
-                    if new_msgid is None:
-                        # first referenced link replacement in msgid
-                        new_msgid = orig_msgid.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgid = new_msgid.replace(replacer, replacement)
-                    break
-
-        # the same game as above, but now for msgstrs
-
-        for msgstr_linkr_group in msgstr_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[1][0] == msgstr_linkr_group[1]:
-                    replacer = (
-                        f'[{msgstr_linkr_group[0]}][{msgstr_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgstr_linkr_group[0]}]'
-                        f'({link_reference_text_targets[1][1]})'
-                    )
-
-                    if new_msgstr is None:
-                        # first referenced link replacement in msgid
-                        new_msgstr = orig_msgstr.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgstr = new_msgstr.replace(replacer, replacement)
-                    break
-
-        # store in solutions
-        solutions[new_msgid] = new_msgstr
-
+            msgid_match = match_link_reference(msgid)
+            msgstr_match = match_link_reference(msgstr.lstrip(' '))
+            if msgid_match and msgstr_match:
+                msgid_definitions.setdefault(msgid_match[0], msgid_match)
+                msgstr_definitions.setdefault(msgstr_match[0], msgstr_match)
+
+    def solve(text, definitions):
+        def replace(match):
+            link_text, target = match.groups()
+            definition = definitions.get(target or link_text)
+            if definition is None:
+                return match.group()
+            _, href, title = definition
+            return (
+                f'[{link_text}]'
+                f'({link_destination(href, title)}{link_title(title)})'
+            )
+        if '[' not in text:
+            return text
+        return re.sub(referenced_link_re, replace, text)
+
+    # replace in original messages link referenced targets with real targets
+    solutions = {}
+    if not msgid_definitions:
+        return solutions
+    if messages is None:
+        messages = translations
+    for msgid, msgstr in messages.items():
+        new_msgid = solve(msgid, msgid_definitions)
+        if new_msgid != msgid:
+            solutions[new_msgid] = solve(msgstr, msgstr_definitions)
     return solutions
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 121b24e..fa631e5 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -19,7 +19,11 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_file_content_if_is_file,
 )
-from mdpo.md import solve_link_reference_targets
+from mdpo.md import (
+    link_destination,
+    link_title,
+    solve_link_reference_targets,
+)
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
@@ -186,11 +190,10 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += '*'
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.link_tags and 'href' in attrs:
-                    title, href = attrs.get('title'), attrs['href']
-                    _current_link_target += f'({href}'
-                    if title:
-                        _current_link_target += f' "{title}"'
-                    _current_link_target += ')'
+                    title, href = attrs.get('title'), attrs['href'] or ''
+                    _current_link_target += (
+                        f'({link_destination(href, title)}{link_title(title)})'
+                    )
 
                     raw_html_template += f'<{handled}'
 
@@ -240,12 +243,12 @@ class MdPo2HTML(HTMLParser):
                 raw_html_template += f'<!--{handled}-->'
             elif handle == 'startend':
                 if handled in self.image_tags and 'src' in attrs:
-                    alt, src = attrs.get('alt', ''), attrs['src']
-                    _current_replacement += f'![{alt}]({src}'
+                    alt, src = attrs.get('alt', ''), attrs['src'] or ''
                     title = attrs.get('title')
-                    if title:
-                        _current_replacement += f' "{title}"'
-                    _current_replacement += ')'
+                    _current_replacement += (
+                        f'![{alt}]'
+                        f'({link_destination(src, title)}{link_title(title)})'
+                    )
 
                     raw_html_template += '{}'
                 else:
@@ -318,6 +321,20 @@ class MdPo2HTML(HTMLParser):
         self.enable_next_block = False
         self.current_msgctxt = None
 
+    def _solve_link_references(self):
+        # extend translations to populate link reference msgid-msgstrs
+        # with real targets
+        if self.real_link_reference_targets is not None:
+            return
+        self.real_link_reference_targets = (
+            solve_link_reference_targets(self.translations)
+        )
+        for translations in self.translations_with_msgctxt.values():
+            translations.update(
+                solve_link_reference_targets(self.translations, translations),
+            )
+        self.translations.update(self.real_link_reference_targets)
+
     def handle_starttag(self, tag, attrs):
         if tag in VOID_TAGS:  # has no end tag
             self.handle_startendtag(tag, attrs)
@@ -339,13 +356,8 @@ class MdPo2HTML(HTMLParser):
             )
             self.output += f'<{tag}{attrs_repr}>'
         else:
-            if tag == 'a' and self.real_link_reference_targets is None:
-                # extend translations to populate link reference msgid-msgstrs
-                # with real targets
-                self.real_link_reference_targets = (
-                    solve_link_reference_targets(self.translations)
-                )
-                self.translations.update(self.real_link_reference_targets)
+            if tag == 'a':
+                self._solve_link_references()
 
             self.replacer.append(('start', tag, OrderedDict(attrs)))
             self.context.append(tag)
@@ -373,6 +385,8 @@ class MdPo2HTML(HTMLParser):
         if not self.replacer:
             self.output += self.get_starttag_text()
         else:
+            if tag in self.image_tags:
+                self._solve_link_references()
             self.replacer.append(('startend', tag, OrderedDict(attrs)))
 
     def handle_data(self, data):
-- 
2.43.0


From fa6f44f7a3777efd929597ada72406d79479953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 70/80] fix: do not close twice the links at the end of a
 message in HTML pages

---
 src/mdpo/mdpo2html/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index fa631e5..d47b159 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -298,6 +298,8 @@ class MdPo2HTML(HTMLParser):
                     html_after_last_replacement.split(f'</{tag}>')[-1]
             html_before_first_replacement = \
                 html_before_first_replacement.split('<a href="')[0]
+            html_after_last_replacement = \
+                html_after_last_replacement.split('</a>')[-1]
 
         html_inner = '\n'.join(
             self.html_renderer.parse(replacement).split('\n')[:-1],
-- 
2.43.0


From 7968b9d3d36d1252881a6d830fc2293db511c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:53 +0000
Subject: [PATCH 71/80] fix: keep code blocks, nested lists and the end tags of
 items in HTML pages

---
 src/mdpo/mdpo2html/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index d47b159..5e707ad 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -34,6 +34,9 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+BLOCK_TAGS = frozenset([
+    'ul', 'ol', 'blockquote', 'pre', 'div', 'table', *PROCESS_REPLACER_TAGS,
+])
 VOID_TAGS = frozenset([
     'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link',
     'meta', 'source', 'track', 'wbr',
@@ -70,7 +73,7 @@ class MdPo2HTML(HTMLParser):
         italic_tags=frozenset(['em', 'i']),
         link_tags=frozenset(['a']),
         image_tags=frozenset(['img']),
-        ignore_grouper_tags=frozenset(['div', 'hr']),
+        ignore_grouper_tags=frozenset(['div', 'hr', 'pre']),
         po_encoding=None,
         command_aliases=None,
         _check_saved_files_changed=None,
@@ -257,6 +260,11 @@ class MdPo2HTML(HTMLParser):
                     )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
+        if '{}' not in raw_html_template:  # tags without text
+            self.output += raw_html_template
+            self.context = []
+            return
+
         _current_replacement = html.unescape(_current_replacement)
 
         if (self.disable or self.disable_next_block) \
@@ -342,6 +350,10 @@ class MdPo2HTML(HTMLParser):
             self.handle_startendtag(tag, attrs)
             return
 
+        if tag in BLOCK_TAGS and self.replacer:
+            # text of the item or the block which contains this one
+            self._process_replacer()
+
         if tag in self.ignore_grouper_tags:
             self.context.append(tag)
             attrs_repr = (
-- 
2.43.0


From 3033470ce7584626f3f123c2b8474d9a203af3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 72/80] fix: keep as they are the parts of HTML pages without
 translation, and the markup of links in messages

---
 src/mdpo/mdpo2html/__init__.py | 272 +++++++++++++++++----------------
 1 file changed, 142 insertions(+), 130 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5e707ad..43a8491 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -4,7 +4,6 @@ import contextlib
 import html
 import re
 import warnings
-from collections import OrderedDict
 from html.parser import HTMLParser
 
 import md4c
@@ -20,6 +19,7 @@ from mdpo.io import (
     to_file_content_if_is_file,
 )
 from mdpo.md import (
+    is_uri,
     link_destination,
     link_title,
     solve_link_reference_targets,
@@ -44,24 +44,6 @@ VOID_TAGS = frozenset([
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
-def _html_attrs_to_str(attrs):
-    """Converts a dictionary of HTML attributes to its HTML representation.
-
-    Args:
-        attrs (dict): Attributes with values
-
-    Returns:
-        str: HTML attributes string ready to be used inside a HTML tag.
-    """
-    response = ''
-    for name, value in attrs.items():
-        response += name
-        if value is not None:
-            response += f'="{value}"'
-        response += ' '
-    return response.rstrip(' ')
-
-
 class MdPo2HTML(HTMLParser):
     def __init__(
         self,
@@ -164,130 +146,157 @@ class MdPo2HTML(HTMLParser):
         if not split_output[-1]:
             self.output = '\n'.join(split_output)[:-1]
 
+    def _close_link(self, message, href, title, text_start):
+        text = message[text_start:]
+        if text == href and is_uri(href):
+            return f'{message[:text_start - 1]}<{text}{link_title(title)}>'
+        return f'{message}]({link_destination(href, title)}{link_title(title)})'
+
+    def _replace_texts(self, template, first, last, replacement):
+        """Replaces by a translation the pieces of HTML from the first to the
+        last text of a message.
+
+        The tags opened before the first text are only kept if are closed
+        after the last one, and vice versa.
+        """
+        opened, unpaired = ([], set())
+        for i, (kind, tag, _) in enumerate(template):
+            if kind == 'start':
+                opened.append((i, tag))
+            elif kind == 'end':
+                if opened and opened[-1][1] == tag:
+                    start, _ = opened.pop()
+                    if start < first < i < last or first < start < last < i:
+                        unpaired.update((start, i))
+
+        def outside(start, end):
+            return ''.join(
+                template[i][2] for i in range(start, end)
+                if template[i][0] != 'markup' and i not in unpaired
+            )
+
+        if '\n' in replacement:
+            html_inner = self.html_renderer.parse(replacement).rstrip('\n')
+        else:
+            # as a heading, only inline markup is rendered
+            html_inner = self.html_renderer.parse(
+                f'# {replacement} #',
+            ).rstrip('\n')
+        html_inner = '>'.join(html_inner.split('>')[1:])
+        html_inner = '<'.join(html_inner.split('<')[:-1])
+
+        return (
+            outside(0, first) + html_inner + outside(last + 1, len(template))
+        )
+
     def _process_replacer(self):
 
         template_tags = []
-        raw_html_template, _current_replacement = ('', '')
+        # pieces of HTML of the block and text of the message
+        template, _current_replacement = ([], '')
+        # targets of the links opened
+        _link_targets = []
 
-        _current_link_target = ''
-
-        _last_start_tag = None
-        _last_end_tag = None
         _inside_code = False
         while self.replacer:
-            handle, handled, attrs = self.replacer.pop(0)
+            handle, handled, attrs, raw = self.replacer.pop(0)
+            kind = handle
             if handle == 'start':
                 template_tags.append(handled)
 
-                attrs_repr = (
-                    f' {_html_attrs_to_str(attrs)}' if attrs else ''
-                )
-
                 if handled in self.code_tags:
+                    kind = 'markup'
                     _current_replacement += '`'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.bold_tags:
+                    kind = 'markup'
                     _current_replacement += '**'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.italic_tags:
+                    kind = 'markup'
                     _current_replacement += '*'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
-                elif handled in self.link_tags and 'href' in attrs:
-                    title, href = attrs.get('title'), attrs['href'] or ''
-                    _current_link_target += (
-                        f'({link_destination(href, title)}{link_title(title)})'
-                    )
-
-                    raw_html_template += f'<{handled}'
-
-                    for attr in attrs:
-                        if attr in ['title', 'href']:
-                            raw_html_template += f' {attr}="{{}}"'
-                        #     These attributes are not included in output
-                    # if attrs_except_href_title:
-                    # raw_html_template += _html_attrs_to_str(
-                    #     attrs_except_href_title) + '>'
-                    raw_html_template += '>'
-                else:
-                    raw_html_template += f'<{handled}{attrs_repr}>'
-                _last_start_tag = handled
-                if _last_start_tag == 'code':
+                elif handled in self.link_tags:
+                    if 'href' in attrs:
+                        kind = 'markup'
+                        title, href = attrs.get('title'), attrs['href'] or ''
+                        _link_targets.append((
+                            href, title, len(_current_replacement) + 1,
+                        ))
+                        _current_replacement += '['
+                    else:
+                        _link_targets.append(None)
+                if handled == 'code':
                     _inside_code = True
 
             elif handle == 'data':
+                kind = 'text'
                 if not _inside_code:
                     while '  ' in handled:
                         handled = handled.replace('  ', ' ')
 
                 if all((ch in ALIGNMENT_CHARS) for ch in handled):
-                    raw_html_template += handled
-                    _current_replacement += handled
-                else:
-                    raw_html_template += '{}'
-                    if _current_link_target:
-                        _current_replacement += (
-                            f'[{handled}]{_current_link_target}'
-                        )
-                        _current_link_target = ''
-                    else:
-                        _current_replacement += handled
+                    kind = 'space'
+                _current_replacement += handled
             elif handle == 'end':
-                raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
+                    kind = 'markup'
                     _current_replacement += '`'
                 elif handled in self.bold_tags:
+                    kind = 'markup'
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
+                    kind = 'markup'
                     _current_replacement += '*'
-                _last_end_tag = handled
-                if _last_end_tag == 'code':
+                elif handled in self.link_tags and _link_targets:
+                    target = _link_targets.pop()
+                    if target is not None:
+                        kind = 'markup'
+                        _current_replacement = self._close_link(
+                            _current_replacement, *target,
+                        )
+                if handled == 'code':
                     _inside_code = False
-            elif handle == 'comment':
-                raw_html_template += f'<!--{handled}-->'
             elif handle == 'startend':
                 if handled in self.image_tags and 'src' in attrs:
-                    alt, src = attrs.get('alt', ''), attrs['src'] or ''
+                    kind = 'text'
+                    alt, src = attrs.get('alt') or '', attrs['src'] or ''
                     title = attrs.get('title')
                     _current_replacement += (
                         f'![{alt}]'
                         f'({link_destination(src, title)}{link_title(title)})'
                     )
+            template.append((kind, handled, raw))
 
-                    raw_html_template += '{}'
-                else:
-                    attrs_repr = (
-                        f' {_html_attrs_to_str(attrs)}' if attrs else ''
-                    )
-                    raw_html_template += f'<{handled}{attrs_repr}/>'
-
-        if '{}' not in raw_html_template:  # tags without text
-            self.output += raw_html_template
+        texts = [i for i, piece in enumerate(template) if piece[0] == 'text']
+        if not texts:  # tags without text
+            self.output += ''.join(raw for _, _, raw in template)
             self.context = []
             return
 
         _current_replacement = html.unescape(_current_replacement)
 
+        replacement = None
         if (self.disable or self.disable_next_block) \
                 and not self.enable_next_block:
-            replacement = _current_replacement
-
             self.disabled_entries.append(
                 polib.POEntry(
-                    msgid=replacement,
+                    msgid=_current_replacement,
                     msgstr='',
                     msgctxt=self.current_msgctxt,
                 ),
             )
+        elif self.current_msgctxt:
+            replacement = self.translations_with_msgctxt.get(
+                self.current_msgctxt,
+                {},
+            ).get(_current_replacement)
         else:
-            if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt.get(
-                    self.current_msgctxt,
-                    {},
-                ).get(_current_replacement)
-            else:
-                replacement = self.translations.get(_current_replacement)
-            if not replacement:
-                replacement = _current_replacement
+            replacement = self.translations.get(_current_replacement)
+
+        if replacement:
+            html_template = self._replace_texts(
+                template, texts[0], texts[-1], replacement,
+            )
+        else:
+            html_template = ''.join(raw for _, _, raw in template)
 
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
@@ -296,28 +305,6 @@ class MdPo2HTML(HTMLParser):
                         if tag not in template_tags:
                             template_tags.append(tag)
 
-        html_before_first_replacement = raw_html_template.split('{')[0]
-        html_after_last_replacement = raw_html_template.split('}')[-1]
-        for tags_group in [self.bold_tags, self.italic_tags, self.code_tags]:
-            for tag in tags_group:
-                html_before_first_replacement = \
-                    html_before_first_replacement.split(f'<{tag}>')[0]
-                html_after_last_replacement = \
-                    html_after_last_replacement.split(f'</{tag}>')[-1]
-            html_before_first_replacement = \
-                html_before_first_replacement.split('<a href="')[0]
-            html_after_last_replacement = \
-                html_after_last_replacement.split('</a>')[-1]
-
-        html_inner = '\n'.join(
-            self.html_renderer.parse(replacement).split('\n')[:-1],
-        )
-        html_inner = '>'.join(html_inner.split('>')[1:])
-        html_inner = '<'.join(html_inner.split('<')[:-1])
-
-        html_template = html_before_first_replacement + html_inner + \
-            html_after_last_replacement
-
         if self.merge_adjacent_markups:
             html_template = self._merge_adyacent_tags(
                 html_template,
@@ -356,24 +343,21 @@ class MdPo2HTML(HTMLParser):
 
         if tag in self.ignore_grouper_tags:
             self.context.append(tag)
-            attrs_repr = (
-                f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
-            )
-            self.output += f'<{tag}{attrs_repr}>'
+            self.output += self.get_starttag_text()
         elif (
             (self.context and self.context[0] in self.ignore_grouper_tags)
             or (tag in {'ul', 'ol'} and not self.context)
             or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
+            or (not self.replacer and tag not in PROCESS_REPLACER_TAGS)
         ):
-            attrs_repr = (
-                f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
-            )
-            self.output += f'<{tag}{attrs_repr}>'
+            self.output += self.get_starttag_text()
         else:
             if tag == 'a':
                 self._solve_link_references()
 
-            self.replacer.append(('start', tag, OrderedDict(attrs)))
+            self.replacer.append(
+                ('start', tag, dict(attrs), self.get_starttag_text()),
+            )
             self.context.append(tag)
 
     def handle_endtag(self, tag):
@@ -385,12 +369,15 @@ class MdPo2HTML(HTMLParser):
         elif self.context and self.context[0] in self.ignore_grouper_tags:
             self.output += f'</{tag}>'
         elif tag in PROCESS_REPLACER_TAGS:
-            self.replacer.append(('end', tag, None))
+            self.replacer.append(('end', tag, None, f'</{tag}>'))
             self._process_replacer()
-        elif tag in ['ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif (
+            not self.replacer
+            or tag in ['ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody']
+        ):
             self.output += f'</{tag}>'
         else:
-            self.replacer.append(('end', tag, None))
+            self.replacer.append(('end', tag, None, f'</{tag}>'))
             if self.context:
                 self.context.pop()
 
@@ -401,11 +388,18 @@ class MdPo2HTML(HTMLParser):
         else:
             if tag in self.image_tags:
                 self._solve_link_references()
-            self.replacer.append(('startend', tag, OrderedDict(attrs)))
+            self.replacer.append(
+                ('startend', tag, dict(attrs), self.get_starttag_text()),
+            )
 
     def handle_data(self, data):
 
         if data:
+            # the contents of scripts and styles are not escaped
+            raw = (
+                data if self.cdata_elem in self.CDATA_CONTENT_ELEMENTS
+                else html.escape(data, quote=False)
+            )
             if (
                 not self.replacer
                 or (
@@ -414,16 +408,31 @@ class MdPo2HTML(HTMLParser):
                 )
                 or not self.context
             ):
-                self.output += data
+                self.output += raw
             else:
-                if self.context:
-                    data = data.replace('\n', ' ')
-                self.replacer.append(('data', data, None))
+                self.replacer.append(
+                    ('data', data.replace('\n', ' '), None, raw),
+                )
+
+    def _handle_raw(self, raw):
+        if self.replacer:
+            self.replacer.append(('raw', None, None, raw))
+        else:
+            self.output += raw
+
+    def handle_decl(self, decl):
+        self._handle_raw(f'<!{decl}>')
+
+    def handle_pi(self, data):
+        self._handle_raw(f'<?{data}>')
+
+    def unknown_decl(self, data):
+        self._handle_raw(f'<![{data}]>')
 
     def handle_comment(self, data):
 
         if self.replacer:
-            self.replacer.append(('comment', data, None))
+            self._handle_raw(f'<!--{data}-->')
         else:
             data_as_comment = f'<!--{data}-->'
             command, comment = parse_mdpo_html_command(
@@ -474,6 +483,9 @@ class MdPo2HTML(HTMLParser):
         )
 
         self.feed(content)
+        self.close()
+        if self.replacer:  # block without end tag
+            self._process_replacer()
 
         if save:
             if self._saved_files_changed is False:
-- 
2.43.0


From 702af4459bef58cd6f18eedff8a034da4991e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 73/80] fix: do not remove the line break before the comments
 of HTML pages

---
 src/mdpo/mdpo2html/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 43a8491..d3d772d 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -471,6 +471,8 @@ class MdPo2HTML(HTMLParser):
                     )
                 else:
                     self.output += data_as_comment
+                    return
+                self._remove_lastline_from_output_if_empty()
 
     def translate(self, filepath_or_content, save=None, html_encoding='utf-8'):
         content = to_file_content_if_is_file(
-- 
2.43.0


From 7128ed6724b436a5ac6f4f3e05e5fed04efd322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 74/80] fix: find the messages of HTML pages with line breaks
 around

---
 src/mdpo/mdpo2html/__init__.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index d3d772d..6f2dd77 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -185,8 +185,14 @@ class MdPo2HTML(HTMLParser):
         html_inner = '>'.join(html_inner.split('>')[1:])
         html_inner = '<'.join(html_inner.split('<')[:-1])
 
+        # keep the newlines around the message
+        first_text, last_text = (template[first][2], template[last][2])
+        before = '\n' if first_text.startswith('\n') else ''
+        after = '\n' if last_text.endswith('\n') else ''
+
         return (
-            outside(0, first) + html_inner + outside(last + 1, len(template))
+            outside(0, first) + before + html_inner + after
+            + outside(last + 1, len(template))
         )
 
     def _process_replacer(self):
@@ -272,24 +278,30 @@ class MdPo2HTML(HTMLParser):
             return
 
         _current_replacement = html.unescape(_current_replacement)
+        # message without the alignment around it
+        msgid = _current_replacement.strip(''.join(ALIGNMENT_CHARS))
 
         replacement = None
         if (self.disable or self.disable_next_block) \
                 and not self.enable_next_block:
             self.disabled_entries.append(
                 polib.POEntry(
-                    msgid=_current_replacement,
+                    msgid=msgid,
                     msgstr='',
                     msgctxt=self.current_msgctxt,
                 ),
             )
-        elif self.current_msgctxt:
-            replacement = self.translations_with_msgctxt.get(
-                self.current_msgctxt,
-                {},
-            ).get(_current_replacement)
         else:
-            replacement = self.translations.get(_current_replacement)
+            translations = self.translations
+            if self.current_msgctxt:
+                translations = self.translations_with_msgctxt.get(
+                    self.current_msgctxt,
+                    {},
+                )
+            replacement = (
+                translations.get(_current_replacement)
+                or translations.get(msgid)
+            )
 
         if replacement:
             html_template = self._replace_texts(
@@ -441,8 +453,6 @@ class MdPo2HTML(HTMLParser):
             if command is None:
                 self.output += data_as_comment
             else:
-                self._remove_lastline_from_output_if_empty()
-
                 with contextlib.suppress(KeyError):  # not custom command
                     command = self.command_aliases[command]
 
-- 
2.43.0


From 362460ff8fe9829a9935b19a9961a4e834d7aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:32 +0000
Subject: [PATCH 75/80] fix: find untranslated entries of catalogues without
 empty lines between entries

---
 src/mdpo/po.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 9b94513..455d981 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -285,5 +285,11 @@ def parse_empty_msgstr_from_content_lines(
             line.startswith(b'msgstr ""') or line.startswith(b'#~ msgstr ""')
         ) and not content_lines[i - 1].startswith(b'msgid ""'):
             next_i = i + 1
-            if next_i == n_lines or not content_lines[next_i].strip():
+            # the text does not continue in the next line
+            if (
+                next_i == n_lines
+                or not content_lines[next_i].lstrip().startswith(
+                    (b'"', b'#~ "'),
+                )
+            ):
                 yield f'{location_prefix}{next_i}'
-- 
2.43.0


From f1bd47b2d01452b7a6d38f40ee74312be2bfd54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:35 +0000
Subject: [PATCH 76/80] fix: report each obsolete entry of catalogues without
 empty lines between entries

---
 src/mdpo/po.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 455d981..3f73eaa 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -238,14 +238,19 @@ def parse_obsoletes_from_content_lines(
     Returns:
         list(str): error locations found.
     """
-    inside_obsolete_message = False
+    inside_obsolete_message, msgstr_found = False, False
     for i, line in enumerate(content_lines):
-        if not inside_obsolete_message and line[0:3] == b'#~ ':
-            inside_obsolete_message = True
+        if line[0:3] != b'#~ ':
+            inside_obsolete_message = False
+        elif not inside_obsolete_message or (
+            # next message without an empty line between them
+            msgstr_found and line.startswith((b'#~ msgctxt', b'#~ msgid'))
+        ):
+            inside_obsolete_message, msgstr_found = True, False
 
             yield f'{location_prefix}{i + 1}'
-        elif inside_obsolete_message and line[0:3] != b'#~ ':
-            inside_obsolete_message = False
+        elif line.startswith(b'#~ msgstr'):
+            msgstr_found = True
 
 
 def parse_fuzzy_from_content_lines(
-- 
2.43.0


From 4910c50a258dd3bd0655447095015631543dcdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:19 +0000
Subject: [PATCH 77/80] fix: do not write again previous documents translated
 by the same Po2Md object

---
 src/mdpo/po2md/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ba785df..c07f2bd 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1127,6 +1127,11 @@ class Po2Md:
             encoding=md_encoding,
         )
 
+        # results of previous translations
+        self.outputlines = []
+        self.disabled_entries = []
+        self.translated_entries = []
+
         self.translations, self.translations_with_msgctxt = (
             pofiles_to_unique_translations_dicts(self.pofiles)
         )
@@ -1148,6 +1153,8 @@ class Po2Md:
         self.disable_next_block = False
         self.disable = False
         self.enable_next_block = False
+        self.current_msgctxt = None
+        self.current_tcomment = None
         self.link_references = None
 
         self.output = '\n'.join(self.outputlines)
-- 
2.43.0


From d7bc55b016094dd1073686b3aa44696724e6344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 78/80] fix: do not write again previous pages translated by
 the same MdPo2HTML object

---
 src/mdpo/mdpo2html/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 6f2dd77..9d17514 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -490,6 +490,11 @@ class MdPo2HTML(HTMLParser):
             encoding=html_encoding,
         )
 
+        # results of previous translations
+        self.output = ''
+        self.disabled_entries = []
+        self.real_link_reference_targets = None
+
         self.translations, self.translations_with_msgctxt = (
             pofiles_to_unique_translations_dicts(self.pofiles)
         )
@@ -510,6 +515,11 @@ class MdPo2HTML(HTMLParser):
                 save_file(save, self.output, encoding=html_encoding)
 
         self.reset()
+        self.context = []
+        self.disable = False
+        self.disable_next_block = False
+        self.enable_next_block = False
+        self.current_msgctxt = None
 
         return self.output
 
-- 
2.43.0


From cb8a7904013f4ee0c3431fe3f31bb79bf2d2fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 79/80] fix: do not extract again previous messages found by
 the same Md2Po object

---
 src/mdpo/md2po/__init__.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 3fc342c..66b3948 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1061,8 +1061,23 @@ class Md2Po:
             )
             self._dump_link_references()
 
-        if hasattr(self, 'content'):
+        # results and state of previous extractions
+        self.found_entries = []
+        self.disabled_entries = []
+        self.link_references = None
+        self._current_top_level_block_number = 0
+        self._current_top_level_block_type = None
+
+        if not hasattr(self, 'filepaths'):
             _parse(self.content)
+
+            self.disable_next_block = False
+            self.disable = False
+            self.enable_next_block = False
+            self.include_next_codeblock = False
+            self.disable_next_codeblock = False
+            self.current_tcomment = None
+            self.current_msgctxt = None
         else:
             include_codeblocks = self.include_codeblocks
             for filepath in self.filepaths:
-- 
2.43.0


From d74909a81417a57c8f3b59714032107b4bb167d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 80/80] fix: do not write the HTML at the end of a document in
 the next translated by the same Po2Md object

---
 src/mdpo/po2md/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c07f2bd..49c0d00 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1128,6 +1128,7 @@ class Po2Md:
         )
 
         # results of previous translations
+        self.current_line = ''
         self.outputlines = []
         self.disabled_entries = []
         self.translated_entries = []
-- 
2.43.0

