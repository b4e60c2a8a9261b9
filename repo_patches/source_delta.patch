From eea3555bc61be1d2609c7a303d00d08d269138ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 01/31] fix: let an explicit flags argument of BibleFlag.NONE
 override the global flags

---
 src/bibleref/parser.py |  3 +--
 src/bibleref/ref.py    | 30 +++++++++++++++++++-----------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 19ed9aa..6fd1abf 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -5,7 +5,6 @@ from lark import Lark, UnexpectedInput
 from lark import Transformer, v_args
 from lark.visitors import VisitError
 
-import bibleref
 from bibleref import ref, bible_data
 
 
@@ -52,7 +51,7 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = flags or bibleref.flags or ref.BibleFlag.NONE
+        flags = ref._effective_flags(flags)
         _transformer().flags = flags
         range_groups_list = _transformer().transform(tree)
     except VisitError as e:
diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 421ffa1..d149fe1 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -38,6 +38,14 @@ class BibleFlag(Flag):
 bibleref.flags = BibleFlag.NONE # Default setting for global flags attribute.
 
 
+def _effective_flags(flags: BibleFlag = None) -> BibleFlag:
+    '''Returns `flags`, unless it is `None`, in which case the global `bibleref.flags` is returned. (An explicit
+    `BibleFlag.NONE` therefore overrides the global attribute.)'''
+    if flags is None:
+        flags = bibleref.flags
+    return BibleFlag.NONE if flags is None else flags
+
+
 class BibleBook(Enum):
     '''An enum of books in the Bible.
 
@@ -176,7 +184,7 @@ class BibleBook(Enum):
     def min_verse_num(self, chap_num: int, flags: BibleFlag = None) -> int:
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
@@ -470,7 +478,7 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         book = self.book
         chap_num = self.chap_num
         if self.verse_num == 0:
@@ -507,7 +515,7 @@ class BibleVerse:
 
         Using the `-` operator is equivalent to calling `subtract()` with `flags = None`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if isinstance(other, int):
             book = self.book
             chap_num = self.chap_num
@@ -609,7 +617,7 @@ class BibleRange:
     def whole_bible(cls, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a `BibleRange` representing the whole Bible.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         # By definition, we need to allow multibook to encompass whole Bible
         flags |= BibleFlag.MULTIBOOK
         start_book = bible_data().book_order[0]
@@ -661,7 +669,7 @@ class BibleRange:
         or using the `flags` argument, a `MultibookRangeNotAllowedError` is raised. If the arguments are of an
         incorrect number or type, a `ValueError` is raised.     
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if len(args) == 0:
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
@@ -857,7 +865,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
@@ -866,7 +874,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
@@ -881,7 +889,7 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -1229,7 +1237,7 @@ class BibleRangeList(util.GroupedList):
             
         3. As a copy of an existing BibleRangeList: `BibleRangeList(existing_bible_range_list)`
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
 
         if len(args) == 1:
             if isinstance(args[0], str):
@@ -1316,7 +1324,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
@@ -1329,7 +1337,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
-- 
2.43.0


From 8bb58767f7abbaa6266434a443b40f0b21a7a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:27 +0000
Subject: [PATCH 02/31] fix: don't carry the implied book and chapter from one
 parse to the next

---
 src/bibleref/parser.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 6fd1abf..2c4c14a 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -27,17 +27,6 @@ def _parser():
     return _parser_obj
 
 
-_transformer_obj = None
-
-def _transformer():
-    '''Return a Lark Transformer singleton.'''
-    global _transformer_obj
-
-    if _transformer_obj is None:
-        _transformer_obj = _BibleRefTransformer()
-    return _transformer_obj
-
-
 def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
@@ -51,9 +40,9 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = ref._effective_flags(flags)
-        _transformer().flags = flags
-        range_groups_list = _transformer().transform(tree)
+        # The transformer holds parsing state (implied book and chapter), so each parse needs its own.
+        transformer = _BibleRefTransformer(flags=ref._effective_flags(flags))
+        range_groups_list = transformer.transform(tree)
     except VisitError as e:
         raise e.orig_exc
     return range_groups_list
-- 
2.43.0


From 7a84be62fc3455541c5e2070ad71b9b509d7be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:32 +0000
Subject: [PATCH 03/31] fix: pass the flags argument on when building the first
 verse of a chapter

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index d149fe1..1ccda79 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -202,7 +202,7 @@ class BibleBook(Enum):
         '''
         if chap_num is None:
             chap_num = self.min_chap_num()
-        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags))        
+        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags), flags=flags)
 
     def last_verse(self, chap_num: int = None) -> 'BibleVerse':
         '''Returns a `BibleVerse` for the last verse of the specified chapter of this `BibleBook`.
-- 
2.43.0


From 26d3f978012b422a69e0d0c3473cb516e5d0da0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:37 +0000
Subject: [PATCH 04/31] fix: honour the flags argument throughout
 BibleVerse.subtract()

---
 src/bibleref/ref.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 1ccda79..bbda5eb 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -535,11 +535,12 @@ class BibleVerse:
                         chap_num = book.max_chap_num()
                 
                 verse_num = verse_num + book.max_verse_num(chap_num) - min_verse_num + 1 
-                min_verse_num = book.min_verse_num(chap_num)
+                min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
-            bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-            difference = bible_range.verse_count() - 1
+            # BibleRange will swap start and end as necessary
+            bible_range = BibleRange(start=self, end=other, flags=flags)
+            difference = bible_range.verse_count(flags=flags) - 1
             if self < other:
                 difference *= -1
             return difference
-- 
2.43.0


From 16856c12841a79b11c6034ead8feb9dcac6305a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:41 +0000
Subject: [PATCH 05/31] fix: include verse 0s when iterating over a BibleRange

---
 src/bibleref/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index bbda5eb..e7b2874 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1111,10 +1111,13 @@ class BibleRange:
             return union[0].difference(intersection[0])
 
     def __iter__(self):
+        flags = _effective_flags() | BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         verse = self.start
         while verse is not None and verse <= self.end:
             yield verse
-            verse = verse.add(1, BibleFlag.MULTIBOOK) # `verse`` will be None if we're on the last verse of the Bible
+            verse = verse.add(1, flags) # `verse`` will be None if we're on the last verse of the Bible
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From f6d9cfff3a7cfcdbe76445955852aa7a1c675adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:45 +0000
Subject: [PATCH 06/31] fix: honour the flags argument when counting verses,
 chapters and books of a range

---
 src/bibleref/ref.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index e7b2874..341d168 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -826,7 +826,7 @@ class BibleRange:
     def verse_count(self, flags: BibleFlag = None):
         '''Returns the number of verses in this range.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True) # Each range will thus be within its own chapter
+        bible_ranges = self.split(by_chap=True, flags=flags) # Each range will thus be within its own chapter
         count = 0
         for bible_range in bible_ranges:
             count += (bible_range.end.verse_num - bible_range.start.verse_num + 1)
@@ -838,12 +838,12 @@ class BibleRange:
         If `whole` is True, only whole chapters are counted. Otherwise partial chapters are also included in the
         count.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True)
+        bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap():
+            if not bible_ranges[0].is_whole_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
                 count -= 1
         return count
 
@@ -852,12 +852,12 @@ class BibleRange:
         
         If `whole` is True, only whole books are counted. Otherwise, partial books are also included in the count.'''
         # We split the range into books, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_book=True)
+        bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book():
+            if not bible_ranges[0].is_whole_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
                 count -= 1
         return count
 
-- 
2.43.0


From 617f8d4a169134ed0250cb5c22ddcba86a902350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:22 +0000
Subject: [PATCH 07/31] fix: pass the flags argument on in split(), merge() and
 is_adjacent()

---
 src/bibleref/ref.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 341d168..bd281e0 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -937,7 +937,7 @@ class BibleRange:
         
         range_list = BibleRangeList(split_result, flags=flags)
         if regroup:
-            range_list.regroup()
+            range_list.regroup(flags=flags)
         return range_list
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
@@ -964,7 +964,7 @@ class BibleRange:
         if isinstance(other_ref, BibleRangeList):
             # BibleRangeList doesn't define is_adjacent(), so we have to implement here
             return other_ref.is_disjoint(self) and \
-                   any(self.is_adjacent(other_range) for other_range in other_ref) 
+                   any(self.is_adjacent(other_range, flags=flags) for other_range in other_ref) 
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1372,7 +1372,7 @@ class BibleRangeList(util.GroupedList):
             else:
                 # The two ranges can't be merged, so move on
                 node = node.next
-        self.regroup()
+        self.regroup(flags=flags)
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
         '''Returns `True` if every `BibleRange` is disjoint with all the verses in `other_ref`, otherwise `False`.
-- 
2.43.0


From 1126a253c0b37fb7636d3d8928bb2f8e8f64195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:25 +0000
Subject: [PATCH 08/31] fix: honour the flags argument throughout str() and
 regroup()

---
 src/bibleref/ref.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index bd281e0..2472edb 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1153,11 +1153,11 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book():
+        if self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
-        elif self.spans_start_chap():
-            if force_start_verses and not self.spans_end_chap():
+        elif self.spans_start_chap(flags):
+            if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
                 at_verse_level = True
             else:
@@ -1621,7 +1621,7 @@ class BibleRangeList(util.GroupedList):
                 show_start_verse = True
 
             cur_book = bible_range.start.book
-            if (not show_start_verse) and (not bible_range.spans_end_chap()):
+            if (not show_start_verse) and (not bible_range.spans_end_chap(flags)):
                 # End verse will show verse num, and we've been asked to show start verse num in such cases
                 show_start_verse = True
                 at_verse_level = True
@@ -1750,7 +1750,7 @@ class BibleRangeList(util.GroupedList):
 
                 cur_book = bible_range.start.book
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
-                   (not bible_range.spans_end_chap()):
+                   (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
                     start_parts |= BibleVersePart.VERSE
                     at_verse_level = True
-- 
2.43.0


From 3f793a4c7a19fa6fa18b440283212b1b00e68fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:28 +0000
Subject: [PATCH 09/31] fix: make BibleRange difference work at book ends,
 across books and with lists

---
 src/bibleref/ref.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2472edb..5b8beea 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1069,6 +1069,9 @@ class BibleRange:
 
         Using the `-` operator is equivalent to calling `difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1077,14 +1080,14 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags))
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end)
-        if self.surrounds(other_ref):
-            return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
-        if self < other_ref:
-            return BibleRangeList([lower_range], flags=BibleFlag.ALL)
-        else:
-            return BibleRangeList([upper_range], flags=BibleFlag.ALL)
+        # The sections of this range may span, or begin or end next to, several books.
+        flags = _effective_flags(flags) | BibleFlag.MULTIBOOK
+        result = BibleRangeList()
+        if self.start < other_ref.start: # There is a lower section
+            result.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
+        if self.end > other_ref.end: # There is an upper section
+            result.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
+        return result
 
     def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
                    flags: BibleFlag = None) -> 'BibleRangeList':
@@ -1096,6 +1099,9 @@ class BibleRange:
 
         Using the `^` operator is equivalent to calling `sym_difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return other_ref.sym_difference(self, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1108,7 +1114,7 @@ class BibleRange:
             # as the symmetric difference
             return union
         else: # Self and other_ref overlap
-            return union[0].difference(intersection[0])
+            return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
         flags = _effective_flags() | BibleFlag.MULTIBOOK
-- 
2.43.0


From 12bd0e0662241a01083d4001b3fc7df549a102df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 10/31] fix: let existing multi-book ranges be merged and
 intersected when MULTIBOOK is unset

---
 src/bibleref/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 5b8beea..e64e6ab 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1030,7 +1030,7 @@ class BibleRange:
             else:
                 start = min(self.start, other_ref.start)
                 end = max(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
@@ -1054,7 +1054,7 @@ class BibleRange:
             else:
                 start = max(self.start, other_ref.start)
                 end = min(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-- 
2.43.0


From 5bff32b7984b5deb2e20af337e44ec467e199d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:01 +0000
Subject: [PATCH 11/31] fix: remove wholly subtracted ranges in
 BibleRangeList.difference_update()

---
 src/bibleref/ref.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index e64e6ab..98b9446 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1510,17 +1510,23 @@ class BibleRangeList(util.GroupedList):
             for other_range in other_ref:
                 self_range = self_node.value
                 item_difference_list = self_range.difference(other_range, flags=flags)
-                if len(item_difference_list) > 0:
-                    # This item_difference_list now should replace self_node, and self_node
-                    # changed to point to the first of the result items. The easiest
-                    # way to do this is to insert the result items starting from the end:
+                if len(item_difference_list) == 0:
+                    # Nothing is left of self_node, so remove it and move on to the next node
                     old_self_node = self_node
-                    for difference_range in reversed(item_difference_list):
-                        self._insert_before(self_node, difference_range)
-                        self_node = self_node.prev
+                    self_node = self_node.next
                     self._pop_node(old_self_node)
-            self_node = self_node.next
-        self.merge()
+                    break
+                # This item_difference_list now should replace self_node, and self_node
+                # changed to point to the first of the result items. The easiest
+                # way to do this is to insert the result items starting from the end:
+                old_self_node = self_node
+                for difference_range in reversed(item_difference_list):
+                    self._insert_before(self_node, difference_range)
+                    self_node = self_node.prev
+                self._pop_node(old_self_node)
+            else:
+                self_node = self_node.next
+        self.merge(flags=flags)
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
-- 
2.43.0


From 79e5db85766bfab1186b5888feec90e1e0d5b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:05 +0000
Subject: [PATCH 12/31] fix: make the in-place set operators of BibleRangeList
 return the list

---
 src/bibleref/ref.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 98b9446..c5ee1fc 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1574,16 +1574,20 @@ class BibleRangeList(util.GroupedList):
         return self.sym_difference(other_ref)
 
     def __ior__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.union_update(other_ref)    
+        self.union_update(other_ref)
+        return self
 
     def __iand__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.intersection_update(other_ref)
+        self.intersection_update(other_ref)
+        return self
 
     def __isub__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.difference_update(other_ref)
+        self.difference_update(other_ref)
+        return self
 
     def __ixor__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.sym_difference_update(other_ref)
+        self.sym_difference_update(other_ref)
+        return self
 
     def __repr__(self):
         return f'BibleRangeList("{self.str()}")'
-- 
2.43.0


From e7dabba4b81c2d069e94db7a2dd15546fe0c6238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:09 +0000
Subject: [PATCH 13/31] fix: keep the groups of the result in
 intersection_update() and sym_difference_update()

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index c5ee1fc..0f3803d 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1469,7 +1469,8 @@ class BibleRangeList(util.GroupedList):
         '''
         intersection_list = self.intersection(other_ref, flags=flags)
         self.clear()
-        self.extend(intersection_list)
+        for group in intersection_list.groups:
+            self.append_group(group)
 
     def difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this `BibleRangeList`, but not in `other_ref`.
@@ -1554,7 +1555,8 @@ class BibleRangeList(util.GroupedList):
         '''
         sym_difference_list = self.sym_difference(other_ref, flags=flags)
         self.clear()
-        self.extend(sym_difference_list)
+        for group in sym_difference_list.groups:
+            self.append_group(group)
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 7bd977644db438652e92835bc5e3027a4aac1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:12 +0000
Subject: [PATCH 14/31] fix: include every verse of the list in BibleRangeList
 range(), chap_range() and book_range()

---
 src/bibleref/ref.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 0f3803d..052ab10 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1324,9 +1324,9 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.ALL is always set for this method, regardless of the value of `bibleref.flags`.
         '''
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start, end=max_range.end, flags=BibleFlag.ALL)
+        start = min(bible_range.start for bible_range in self)
+        end = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start, end=end, flags=BibleFlag.ALL)
 
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1336,10 +1336,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_range.end.last_verse(),
-                          flags=flags)
+        start = min(bible_range.start for bible_range in self)
+        end = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start.first_verse(flags=flags), end=end.last_verse(), flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1349,10 +1348,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
-                          flags=flags)
+        start = min(bible_range.start for bible_range in self)
+        end = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start.book.first_verse(flags=flags), end=end.book.last_verse(), flags=flags)
 
     def sort(self, regroup: bool = True):
         '''Sorts this list in-place. All existing groups are cleared and replaced with a single
-- 
2.43.0


From d6a38b37ab88cf4faf0c84da3b1b5142f3e891a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:15 +0000
Subject: [PATCH 15/31] fix: find multi-book ranges contained in a list when
 MULTIBOOK is unset

---
 src/bibleref/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 052ab10..ea3e1bf 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1399,9 +1399,9 @@ class BibleRangeList(util.GroupedList):
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
         elif isinstance(other_ref, BibleRange):
             other_ref = BibleRangeList([other_ref])
-        # Create a consolidated copy of ourselves
+        # Create a consolidated copy of ourselves (merging across books, in case other_ref has multi-book ranges)
         self_copy = BibleRangeList(self)
-        self_copy.merge(flags=flags)
+        self_copy.merge(flags=_effective_flags(flags) | BibleFlag.MULTIBOOK)
         # Every one of the other list's ranges must be contained by at least one of the our ranges
         return all(any(self_range.contains(other_range) for self_range in self_copy) for other_range in other_ref)
 
-- 
2.43.0


From 78aee56e0c1024e746f0660b85685d6ae18f2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:10 +0000
Subject: [PATCH 16/31] fix: sort long lists without exceeding the recursion
 limit

---
 src/bibleref/util.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 00623d6..47ca717 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -613,20 +613,31 @@ class GroupedList(MutableSequence):
         if first_node_B is None:
             return (first_node_A, last_node_A)
         
-        if first_node_A <=  first_node_B: # Nodes compare using their values
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A.next, last_node_A,
-                                                                    first_node_B, last_node_B)
-            first_node_A.next = next_first_node
-            next_first_node.prev = first_node_A
-            first_node_A.prev = None
-            return (first_node_A, new_last_node)
-        else: # first_node_B is less than first_node_A
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A,
-                                                                    first_node_B.next, last_node_B)
-            first_node_B.next = next_first_node
-            next_first_node.prev = first_node_B
-            first_node_B.prev = None
-            return (first_node_B, new_last_node)
+        # This is a loop rather than a recursion, as a recursion would be as deep as the list is long.
+        new_first_node = None
+        new_last_node = None
+        while first_node_A is not None and first_node_B is not None:
+            if first_node_A <= first_node_B: # Nodes compare using their values
+                node = first_node_A
+                first_node_A = first_node_A.next
+            else: # first_node_B is less than first_node_A
+                node = first_node_B
+                first_node_B = first_node_B.next
+            node.prev = new_last_node
+            if new_last_node is None:
+                new_first_node = node
+            else:
+                new_last_node.next = node
+            new_last_node = node
+
+        # One sublist is used up. The rest of the other one is already in order.
+        if first_node_A is not None:
+            (next_first_node, last_node) = (first_node_A, last_node_A)
+        else:
+            (next_first_node, last_node) = (first_node_B, last_node_B)
+        new_last_node.next = next_first_node
+        next_first_node.prev = new_last_node
+        return (new_first_node, last_node)
 
     #
     # End of sort-related methods
-- 
2.43.0


From a255386943b5d09bbb0eb646d9e3f1d282b983ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:14 +0000
Subject: [PATCH 17/31] fix: raise IndexError for negative indexes before the
 start of a list

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 47ca717..402664d 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -89,7 +89,7 @@ class GroupedList(MutableSequence):
             '''
             if group_index < 0:
                 group_index += self.parent._group_count
-            if group_index >= self.parent._group_count:
+            if group_index < 0 or group_index >= self.parent._group_count:
                 raise IndexError(f"Group index {group_index} out of range")
             return group_index
 
@@ -215,7 +215,7 @@ class GroupedList(MutableSequence):
         '''
         if index < 0:
             index += self._node_count
-        if index >= self._node_count:
+        if index < 0 or index >= self._node_count:
             raise IndexError(f"List index {index} out of range")
         return index
 
-- 
2.43.0


From cdf8d69b8a963a600d1eb2600bb0cf13b014ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:17 +0000
Subject: [PATCH 18/31] fix: leave the groups intact when inserting a group
 where one already starts

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 402664d..6a8612b 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -318,8 +318,8 @@ class GroupedList(MutableSequence):
             self._first_head = node
 
     def _insert_new_group_at_node(self, node: 'GroupedList._Node'):
-        if node is self._first:
-            # First node is always already a group.
+        if node.is_group_head:
+            # Node already starts a group (as the first node always does).
             return
         node.is_group_head = True
         prev_group_head = self._find_group_head(node.prev)
-- 
2.43.0


From ff435a95292d6067a9077b4669e11ac37f7ae67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 19/31] fix: invalidate existing GroupViews when a list is
 cleared

---
 src/bibleref/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 6a8612b..53f6b8d 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -526,6 +526,10 @@ class GroupedList(MutableSequence):
 
     def clear(self):
         '''Removes all items from the list.'''
+        node = getattr(self, "_first", None)
+        while node is not None:
+            node.parent = None  # Invalidates any existing GroupViews
+            node = node.next
         self._first: GroupedList._Node = None          # First node
         self._last: GroupedList._Node = None           # Last node
         self._node_count: int = 0                    # Count of nodes
-- 
2.43.0


From e93aaf8f165e6ae1833ec98f75c63163a23a1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:25 +0000
Subject: [PATCH 20/31] fix: let a list be extended with itself

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 53f6b8d..2a7c420 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -482,13 +482,13 @@ class GroupedList(MutableSequence):
         
         The new items all form a single new group.'''
         is_first_item = True
-        for item in iterable:
+        for item in list(iterable): # Copied, as iterable may be this list or one of its groups
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        for item in iterable:
+        for item in list(iterable): # Copied, as iterable may be this list or one of its groups
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From 8a4af42e5cea6e8102c2d47d47006397111b5248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:30 +0000
Subject: [PATCH 21/31] fix: let a list be compared with objects that have no
 length

---
 src/bibleref/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 2a7c420..2c34152 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -657,6 +657,8 @@ class GroupedList(MutableSequence):
             node = node.next
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, GroupedList):
+            return NotImplemented
         return self.equals(other)
 
     def equals(self, other_iterable, compare_groups=True) -> bool:
-- 
2.43.0


From 18bb4740d8c5aca8e161b190534a2c59c2984598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:04 +0000
Subject: [PATCH 22/31] fix: report every unparsable string as a
 BibleRefParsingError within the string

---
 src/bibleref/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 2c4c14a..92ccf89 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -1,7 +1,7 @@
 '''Submodule for parsing strings into Bible references. The contents of this submodule should be considered an
 implementation detail and not relied upon.
 '''
-from lark import Lark, UnexpectedInput
+from lark import Lark, UnexpectedInput, UnexpectedEOF
 from lark import Transformer, v_args
 from lark.visitors import VisitError
 
@@ -31,6 +31,10 @@ def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
         tree = _parser().parse(string)
+    except UnexpectedEOF as orig:
+        new_error = ref.BibleRefParsingError("Unexpected end of text", len(string), len(string))
+        new_error.orig = orig
+        raise new_error
     except UnexpectedInput as orig:
         start_pos=orig.pos_in_stream
         end_pos=orig.pos_in_stream + 1
@@ -185,7 +189,10 @@ class _BibleRefTransformer(Transformer):
         return book
 
     def NUM(self, token):
-        return int(token)
+        try:
+            return int(token)
+        except ValueError as e: # Python limits the number of digits
+            raise ref.BibleRefParsingError(str(e), token.start_pos, token.end_pos)
 
 def _recreate_parser():
     global _parser_obj
-- 
2.43.0


From 471641bf7adbb9eb2260c5f9541c85b4c4d4a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:07 +0000
Subject: [PATCH 23/31] fix: swap whole references when parsing a reversed
 range of chapters or books

---
 src/bibleref/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 92ccf89..e98cf06 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -85,6 +85,8 @@ class _BibleRefTransformer(Transformer):
     def dual_ref(self, meta, children): # Children: single_ref RANGE_SEP single_ref
         first: ref.BibleRange = children[0]
         second: ref.BibleRange = children[2]
+        if second.end < first.start: # Reversed range, so swap around the two references
+            (first, second) = (second, first)
         # We don't need to update self.cur_book or self.cur_chap_num as they will
         # have already been updated by the parsing of the second BibleRange child.
         try:
-- 
2.43.0


From f03a2334812167a80500bf817af5811691815515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:10 +0000
Subject: [PATCH 24/31] fix: recognise book titles of several words without
 spaces, as written by str(nospace=True)

---
 src/bibleref/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 63b9697..dc4bbcb 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -158,8 +158,8 @@ class BibleData:
                     full_title_pattern += "(" + char
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
-                # Allow for extra whitespace.
-                full_title_pattern = full_title_pattern.replace(" ",r"\s+")
+                # Allow for variable whitespace.
+                full_title_pattern = full_title_pattern.replace(" ",r"\s*")
 
                 # Collate the extra acceptable abbreviations, and combine everything into a final,
                 # single regex for the book
-- 
2.43.0


From 5f69c48ac4be94174c3e456ca1d483791608f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:13 +0000
Subject: [PATCH 25/31] fix: let the chapter be omitted in
 BibleVerse.max_verse_num(), as documented

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index ea3e1bf..13229fe 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -402,7 +402,7 @@ class BibleVerse:
             chap_num = self.chap_num
         return self.book.min_verse_num(chap_num, flags=flags)
 
-    def max_verse_num(self, chap_num: int) -> int:
+    def max_verse_num(self, chap_num: int = None) -> int:
         '''Return the highest verse number for the specified chapter of the `BibleBook` containing this verse.
         If no chapter is specified, it returns the highest verse number of the chapter containing this `BibleVerse`.
         '''
-- 
2.43.0


From 6c14ee1f9f57806b465873f6b85865a295f7352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 26/31] fix: don't write later single references of a list as
 ranges

---
 src/bibleref/ref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 13229fe..dea5f88 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1689,6 +1689,7 @@ class BibleRangeList(util.GroupedList):
         for group in self.groups:
             for bible_range in group:
                 bible_range: BibleRange = bible_range # Typecast                
+                force_dual_ref = False
                 if bible_range.spans_start_book(flags): # Range start includes an entire book
                     # Even if already in same book, whole book references repeat the whole book name.
                     start_parts = BibleVersePart.BOOK
-- 
2.43.0


From ab24b3a64d28d3d5a5455cc88a2b074c6420b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:43 +0000
Subject: [PATCH 27/31] fix: write the start verse of ranges that begin with a
 whole book when force_start_verses is set

---
 src/bibleref/ref.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index dea5f88..2b71c3e 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1159,16 +1159,15 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book(flags):
+        if force_start_verses and not self.spans_end_chap(flags):
+            start_parts = BibleVersePart.FULL_REF
+            at_verse_level = True
+        elif self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
         elif self.spans_start_chap(flags):
-            if force_start_verses and not self.spans_end_chap(flags):
-                start_parts = BibleVersePart.FULL_REF
-                at_verse_level = True
-            else:
-                start_parts = BibleVersePart.BOOK_CHAP
-                at_verse_level = False
+            start_parts = BibleVersePart.BOOK_CHAP
+            at_verse_level = False
         else:
             start_parts = BibleVersePart.FULL_REF
             at_verse_level = True
@@ -1769,7 +1768,7 @@ class BibleRangeList(util.GroupedList):
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
                    (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
-                    start_parts |= BibleVersePart.VERSE
+                    start_parts |= BibleVersePart.CHAP_VERSE
                     at_verse_level = True
 
                 start_str = bible_range.start.str(abbrev, alt_sep, nospace, start_parts) 
-- 
2.43.0


From a9aaae5f01de7a972a09cb4c3a605e8ffdd22bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:26 +0000
Subject: [PATCH 28/31] fix: refuse a BibleRange whose start or end is missing
 or not a verse

---
 src/bibleref/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2b71c3e..432fe43 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -672,6 +672,8 @@ class BibleRange:
         '''
         flags = _effective_flags(flags)
         if len(args) == 0:
+            if not isinstance(start, BibleVerse) or not isinstance(end, BibleVerse):
+                raise ValueError("BibleRange needs both a start and an end BibleVerse")
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
                                                     f"({start.book.abbrev} and {end.book.abbrev} are different)")
-- 
2.43.0


From 1613c9954e74d8f7c899487e67f54c84d0685d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:36 +0000
Subject: [PATCH 29/31] fix: allow quote and backslash characters as separators

---
 src/bibleref/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index e98cf06..7d477c1 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -196,6 +196,11 @@ class _BibleRefTransformer(Transformer):
         except ValueError as e: # Python limits the number of digits
             raise ref.BibleRefParsingError(str(e), token.start_pos, token.end_pos)
 
+def _literal(sep):
+    '''Return `sep` as a quoted string literal for the grammar.'''
+    return '"' + sep.replace("\\", "\\\\").replace('"', '\\"') + '"'
+
+
 def _recreate_parser():
     global _parser_obj
     range_sep = bible_data().range_sep
@@ -226,11 +231,11 @@ def _recreate_parser():
 
         NUM: INT
 
-        RANGE_SEP: "{range_sep}"
+        RANGE_SEP: {_literal(range_sep)}
         ?list_sep: MAJOR_LIST_SEP | MINOR_LIST_SEP
-        MAJOR_LIST_SEP: "{major_list_sep}"
-        MINOR_LIST_SEP: "{minor_list_sep}"
-        VERSE_SEP: "{verse_sep_std}" | "{verse_sep_alt}"
+        MAJOR_LIST_SEP: {_literal(major_list_sep)}
+        MINOR_LIST_SEP: {_literal(minor_list_sep)}
+        VERSE_SEP: {_literal(verse_sep_std)} | {_literal(verse_sep_alt)}
 
         BOOK_NAME: /\w(\w|\s)*[^0-9\s\{verse_sep_std}\{verse_sep_alt}\{major_list_sep}\{minor_list_sep}\{range_sep}]/  
             // Books match as follows:
-- 
2.43.0


From b4585eb5bc2a8d54de1d979bbdd2bc69df988b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 30/31] fix: treat a book without verse data as having no
 chapters

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 432fe43..df9f901 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -163,6 +163,8 @@ class BibleBook(Enum):
     def chap_count(self) -> int:
         '''Returns the number of chapters in this `BibleBook`.
         '''
+        if self._max_verses is None:
+            return 0
         return (self.max_chap_num() - self.min_chap_num() + 1)
 
     def min_chap_num(self) -> int:
@@ -185,14 +187,14 @@ class BibleBook(Enum):
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
         flags = _effective_flags(flags)
-        if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
+        if self._max_verses is None or chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
 
     def max_verse_num(self, chap_num: int) -> int:
         '''Return the highest verse number for the specified chapter number of this `BibleBook`.
         '''
-        if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
+        if self._max_verses is None or chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return self._max_verses[chap_num-1]
 
-- 
2.43.0


From ac7139aa71ee6b3bb0b00297e8862eae759db58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:47 +0000
Subject: [PATCH 31/31] fix: read book names of a single letter in references

---
 src/bibleref/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 7d477c1..ba2e52e 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -237,8 +237,9 @@ def _recreate_parser():
         MINOR_LIST_SEP: {_literal(minor_list_sep)}
         VERSE_SEP: {_literal(verse_sep_std)} | {_literal(verse_sep_alt)}
 
-        BOOK_NAME: /\w(\w|\s)*[^0-9\s\{verse_sep_std}\{verse_sep_alt}\{major_list_sep}\{minor_list_sep}\{range_sep}]/  
+        BOOK_NAME: /\w(\w|\s)*[^0-9\s\{verse_sep_std}\{verse_sep_alt}\{major_list_sep}\{minor_list_sep}\{range_sep}]|[^\W\d_]/
             // Books match as follows:
+            // Can be a single letter, or else:
             // Can start with any 'word' (\w) character (incl. numbers)
             // Can include any amount of word characters or whitespace
             // Cannot end with a digit, or any of these symbols -> : . ; , -
-- 
2.43.0

