From 78c74aace4a0e14111bf4e18ae753be977cdceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 01/24] fix: explicitly passed BibleFlag.NONE overrides the
 global flags

---
 src/bibleref/parser.py |  2 +-
 src/bibleref/ref.py    | 30 +++++++++++++++++++-----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 19ed9aa..2e0ed89 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -52,7 +52,7 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = flags or bibleref.flags or ref.BibleFlag.NONE
+        flags = ref._effective_flags(flags)
         _transformer().flags = flags
         range_groups_list = _transformer().transform(tree)
     except VisitError as e:
diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 421ffa1..c83a3f2 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -37,6 +37,14 @@ class BibleFlag(Flag):
 
 bibleref.flags = BibleFlag.NONE # Default setting for global flags attribute.
 
+def _effective_flags(flags: BibleFlag = None) -> BibleFlag:
+    '''Returns the flags in effect for a call: `flags` if supplied (even if it's `BibleFlag.NONE`), otherwise
+    the global flags.
+    '''
+    if flags is None:
+        flags = bibleref.flags
+    return BibleFlag.NONE if flags is None else flags
+
 
 class BibleBook(Enum):
     '''An enum of books in the Bible.
@@ -176,7 +184,7 @@ class BibleBook(Enum):
     def min_verse_num(self, chap_num: int, flags: BibleFlag = None) -> int:
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
@@ -470,7 +478,7 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         book = self.book
         chap_num = self.chap_num
         if self.verse_num == 0:
@@ -507,7 +515,7 @@ class BibleVerse:
 
         Using the `-` operator is equivalent to calling `subtract()` with `flags = None`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if isinstance(other, int):
             book = self.book
             chap_num = self.chap_num
@@ -609,7 +617,7 @@ class BibleRange:
     def whole_bible(cls, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a `BibleRange` representing the whole Bible.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         # By definition, we need to allow multibook to encompass whole Bible
         flags |= BibleFlag.MULTIBOOK
         start_book = bible_data().book_order[0]
@@ -661,7 +669,7 @@ class BibleRange:
         or using the `flags` argument, a `MultibookRangeNotAllowedError` is raised. If the arguments are of an
         incorrect number or type, a `ValueError` is raised.     
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if len(args) == 0:
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
@@ -857,7 +865,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
@@ -866,7 +874,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
@@ -881,7 +889,7 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -1229,7 +1237,7 @@ class BibleRangeList(util.GroupedList):
             
         3. As a copy of an existing BibleRangeList: `BibleRangeList(existing_bible_range_list)`
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
 
         if len(args) == 1:
             if isinstance(args[0], str):
@@ -1316,7 +1324,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
@@ -1329,7 +1337,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
-- 
2.43.0


From 5e59d8d78a71371a1291141fa7b8a5834c916be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:35 +0000
Subject: [PATCH 02/24] fix: BibleBook.first_verse() passes its flags on, so
 verse 0 can be returned

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index c83a3f2..4ed81bf 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -202,7 +202,7 @@ class BibleBook(Enum):
         '''
         if chap_num is None:
             chap_num = self.min_chap_num()
-        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags))        
+        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags), flags=flags)
 
     def last_verse(self, chap_num: int = None) -> 'BibleVerse':
         '''Returns a `BibleVerse` for the last verse of the specified chapter of this `BibleBook`.
-- 
2.43.0


From 33cb62b94d0ede98ca283e59043faccf58315e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:38 +0000
Subject: [PATCH 03/24] fix: BibleVerse.max_verse_num() accepts no chapter, as
 documented

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 4ed81bf..aa2b0ab 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -402,7 +402,7 @@ class BibleVerse:
             chap_num = self.chap_num
         return self.book.min_verse_num(chap_num, flags=flags)
 
-    def max_verse_num(self, chap_num: int) -> int:
+    def max_verse_num(self, chap_num: int = None) -> int:
         '''Return the highest verse number for the specified chapter of the `BibleBook` containing this verse.
         If no chapter is specified, it returns the highest verse number of the chapter containing this `BibleVerse`.
         '''
-- 
2.43.0


From f738f2bf237a4362a0deb3936c0d37184ea3d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:33 +0000
Subject: [PATCH 04/24] fix: verse subtraction and verse, chapter and book
 counts honour their flags

---
 src/bibleref/ref.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index aa2b0ab..63441ba 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -535,11 +535,12 @@ class BibleVerse:
                         chap_num = book.max_chap_num()
                 
                 verse_num = verse_num + book.max_verse_num(chap_num) - min_verse_num + 1 
-                min_verse_num = book.min_verse_num(chap_num)
+                min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
-            bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-            difference = bible_range.verse_count() - 1
+            # Bible will swap start and end as necessary
+            bible_range = BibleRange(start=self, end=other, flags=flags)
+            difference = bible_range.verse_count(flags=flags) - 1
             if self < other:
                 difference *= -1
             return difference
@@ -825,7 +826,7 @@ class BibleRange:
     def verse_count(self, flags: BibleFlag = None):
         '''Returns the number of verses in this range.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True) # Each range will thus be within its own chapter
+        bible_ranges = self.split(by_chap=True, flags=flags) # Each range will thus be within its own chapter
         count = 0
         for bible_range in bible_ranges:
             count += (bible_range.end.verse_num - bible_range.start.verse_num + 1)
@@ -837,12 +838,12 @@ class BibleRange:
         If `whole` is True, only whole chapters are counted. Otherwise partial chapters are also included in the
         count.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True)
+        bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap():
+            if not bible_ranges[0].is_whole_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
                 count -= 1
         return count
 
@@ -851,12 +852,12 @@ class BibleRange:
         
         If `whole` is True, only whole books are counted. Otherwise, partial books are also included in the count.'''
         # We split the range into books, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_book=True)
+        bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book():
+            if not bible_ranges[0].is_whole_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
                 count -= 1
         return count
 
-- 
2.43.0


From 3f8de2f998581ddea11c3a4a61ff6640502ae849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:37 +0000
Subject: [PATCH 05/24] fix: iterating a range includes verse 0s when
 BibleFlag.VERSE_0 is set

---
 src/bibleref/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 63441ba..5b0d84f 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1111,10 +1111,13 @@ class BibleRange:
             return union[0].difference(intersection[0])
 
     def __iter__(self):
+        flags = _effective_flags() | BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         verse = self.start
         while verse is not None and verse <= self.end:
             yield verse
-            verse = verse.add(1, BibleFlag.MULTIBOOK) # `verse`` will be None if we're on the last verse of the Bible
+            verse = verse.add(1, flags) # `verse`` will be None if we're on the last verse of the Bible
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 81ce5e4c4c096197905a2797bf541a413be132e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:40 +0000
Subject: [PATCH 06/24] fix: pass explicit flags on when splitting, merging,
 regrouping, printing and testing adjacency

---
 src/bibleref/ref.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 5b0d84f..6629fc3 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -937,7 +937,7 @@ class BibleRange:
         
         range_list = BibleRangeList(split_result, flags=flags)
         if regroup:
-            range_list.regroup()
+            range_list.regroup(flags)
         return range_list
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
@@ -964,7 +964,7 @@ class BibleRange:
         if isinstance(other_ref, BibleRangeList):
             # BibleRangeList doesn't define is_adjacent(), so we have to implement here
             return other_ref.is_disjoint(self) and \
-                   any(self.is_adjacent(other_range) for other_range in other_ref) 
+                   any(self.is_adjacent(other_range, flags=flags) for other_range in other_ref) 
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1153,11 +1153,11 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book():
+        if self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
-        elif self.spans_start_chap():
-            if force_start_verses and not self.spans_end_chap():
+        elif self.spans_start_chap(flags):
+            if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
                 at_verse_level = True
             else:
@@ -1372,7 +1372,7 @@ class BibleRangeList(util.GroupedList):
             else:
                 # The two ranges can't be merged, so move on
                 node = node.next
-        self.regroup()
+        self.regroup(flags)
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
         '''Returns `True` if every `BibleRange` is disjoint with all the verses in `other_ref`, otherwise `False`.
@@ -1621,7 +1621,7 @@ class BibleRangeList(util.GroupedList):
                 show_start_verse = True
 
             cur_book = bible_range.start.book
-            if (not show_start_verse) and (not bible_range.spans_end_chap()):
+            if (not show_start_verse) and (not bible_range.spans_end_chap(flags)):
                 # End verse will show verse num, and we've been asked to show start verse num in such cases
                 show_start_verse = True
                 at_verse_level = True
@@ -1750,7 +1750,7 @@ class BibleRangeList(util.GroupedList):
 
                 cur_book = bible_range.start.book
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
-                   (not bible_range.spans_end_chap()):
+                   (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
                     start_parts |= BibleVersePart.VERSE
                     at_verse_level = True
-- 
2.43.0


From 9f9bf06560257aeb76997928f5eef97755106e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:38 +0000
Subject: [PATCH 07/24] fix: parse each string with a fresh transformer, so no
 book or chapter leaks into the next parse

---
 src/bibleref/parser.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 2e0ed89..090be70 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -28,17 +28,6 @@ def _parser():
     return _parser_obj
 
 
-_transformer_obj = None
-
-def _transformer():
-    '''Return a Lark Transformer singleton.'''
-    global _transformer_obj
-
-    if _transformer_obj is None:
-        _transformer_obj = _BibleRefTransformer()
-    return _transformer_obj
-
-
 def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
@@ -53,8 +42,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     
     try:
         flags = ref._effective_flags(flags)
-        _transformer().flags = flags
-        range_groups_list = _transformer().transform(tree)
+        # The transformer tracks the current book and chapter, so each parse needs a fresh one.
+        range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
         raise e.orig_exc
     return range_groups_list
-- 
2.43.0


From 4630a8c4bf01c36cf603128c486405adf7255ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 08/24] fix: a number too long for int() raises
 BibleRefParsingError

---
 src/bibleref/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 090be70..fc12933 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -186,7 +186,10 @@ class _BibleRefTransformer(Transformer):
         return book
 
     def NUM(self, token):
-        return int(token)
+        try:
+            return int(token)
+        except ValueError as e: # Python limits the length of integer strings
+            raise ref.BibleRefParsingError(str(e), token.start_pos, token.end_pos)
 
 def _recreate_parser():
     global _parser_obj
-- 
2.43.0


From ce58a5caec229519855550932ca8b30b31805966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 09/24] fix: in-place set operators return the updated list
 instead of None

---
 src/bibleref/ref.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 6629fc3..9cd0de1 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1562,16 +1562,20 @@ class BibleRangeList(util.GroupedList):
         return self.sym_difference(other_ref)
 
     def __ior__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.union_update(other_ref)    
+        self.union_update(other_ref)
+        return self
 
     def __iand__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.intersection_update(other_ref)
+        self.intersection_update(other_ref)
+        return self
 
     def __isub__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.difference_update(other_ref)
+        self.difference_update(other_ref)
+        return self
 
     def __ixor__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.sym_difference_update(other_ref)
+        self.sym_difference_update(other_ref)
+        return self
 
     def __repr__(self):
         return f'BibleRangeList("{self.str()}")'
-- 
2.43.0


From 52d8e2d7b279c754bc6937ee2f9b408a5f212d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 10/24] fix: list difference removes ranges that are fully
 contained in the other operand

---
 src/bibleref/ref.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 9cd0de1..561eba4 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1499,22 +1499,20 @@ class BibleRangeList(util.GroupedList):
         #
         # In-place set difference requires us to make many updates to this list during iteration,
         # beyond what a for-loop can cope with. Therefore we use a while loop.
+        other_ranges = list(other_ref) # A copy, in case other_ref is this list
         self_node = self._first
         while self_node is not None:
-            for other_range in other_ref:
-                self_range = self_node.value
-                item_difference_list = self_range.difference(other_range, flags=flags)
-                if len(item_difference_list) > 0:
-                    # This item_difference_list now should replace self_node, and self_node
-                    # changed to point to the first of the result items. The easiest
-                    # way to do this is to insert the result items starting from the end:
-                    old_self_node = self_node
-                    for difference_range in reversed(item_difference_list):
-                        self._insert_before(self_node, difference_range)
-                        self_node = self_node.prev
-                    self._pop_node(old_self_node)
-            self_node = self_node.next
-        self.merge()
+            remaining_ranges = [self_node.value]
+            for other_range in other_ranges:
+                remaining_ranges = [item_range for remaining_range in remaining_ranges
+                                    for item_range in remaining_range.difference(other_range, flags=flags)]
+            # The remaining ranges (possibly none) now replace self_node.
+            for remaining_range in remaining_ranges:
+                self._insert_before(self_node, remaining_range)
+            next_node = self_node.next
+            self._pop_node(self_node)
+            self_node = next_node
+        self.merge(flags=flags)
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
-- 
2.43.0


From 329a087b55d1e6b5999bb968320cbae924315fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:52 +0000
Subject: [PATCH 11/24] fix: union and intersection of existing multibook
 ranges work when BibleFlag.MULTIBOOK is unset

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 561eba4..d635fd5 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1030,7 +1030,8 @@ class BibleRange:
             else:
                 start = min(self.start, other_ref.start)
                 end = max(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # Ranges that overlap, or that are adjacent under flags, can always be joined
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
@@ -1054,7 +1055,8 @@ class BibleRange:
             else:
                 start = max(self.start, other_ref.start)
                 end = min(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # Existing multibook ranges behave correctly regardless of flags
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-- 
2.43.0


From 3279a1a77921d2dc3146b3568fa6fa06728d8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:56 +0000
Subject: [PATCH 12/24] fix: range difference works at book boundaries and
 honours its flags

---
 src/bibleref/ref.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index d635fd5..fd9ad92 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1079,14 +1079,18 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags))
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end)
-        if self.surrounds(other_ref):
-            return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
-        if self < other_ref:
-            return BibleRangeList([lower_range], flags=BibleFlag.ALL)
-        else:
-            return BibleRangeList([upper_range], flags=BibleFlag.ALL)
+        # Set flags if our attributes imply they should be set
+        flags = _effective_flags(flags)
+        if self.start.book != self.end.book:
+            flags |= BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0
+        new_list = BibleRangeList()
+        if self.start < other_ref.start: # There's a lower section
+            new_list.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
+        if other_ref.end < self.end: # There's an upper section
+            new_list.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
+        return new_list
 
     def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
                    flags: BibleFlag = None) -> 'BibleRangeList':
@@ -1110,7 +1114,7 @@ class BibleRange:
             # as the symmetric difference
             return union
         else: # Self and other_ref overlap
-            return union[0].difference(intersection[0])
+            return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
         flags = _effective_flags() | BibleFlag.MULTIBOOK
-- 
2.43.0


From 247431afbf25d59db0d7e51b3c0f84b110f823f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:01 +0000
Subject: [PATCH 13/24] fix: a range minus or xor a list is supported, like
 union and intersection

---
 src/bibleref/ref.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index fd9ad92..16c8b01 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1060,7 +1060,7 @@ class BibleRange:
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-    def difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
+    def difference(self, other_ref: 'BibleRef',
                    flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this range, but not in `other_ref`.
 
@@ -1071,6 +1071,9 @@ class BibleRange:
 
         Using the `-` operator is equivalent to calling `difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1092,7 +1095,7 @@ class BibleRange:
             new_list.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
         return new_list
 
-    def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
+    def sym_difference(self, other_ref: 'BibleRef',
                    flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this range, or in `other_ref`,
         but not both.
@@ -1102,6 +1105,9 @@ class BibleRange:
 
         Using the `^` operator is equivalent to calling `sym_difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).sym_difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
-- 
2.43.0


From caea1ec8e1b8c4bc8c0d0e27eda386ebeea7c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:05 +0000
Subject: [PATCH 14/24] fix: bounding ranges of a list reach the latest end of
 any of its ranges

---
 src/bibleref/ref.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 16c8b01..22bc758 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1330,9 +1330,9 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.ALL is always set for this method, regardless of the value of `bibleref.flags`.
         '''
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start, end=max_range.end, flags=BibleFlag.ALL)
+        start = min(bible_range.start for bible_range in self)
+        end = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start, end=end, flags=BibleFlag.ALL)
 
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1342,10 +1342,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_range.end.last_verse(),
-                          flags=flags)
+        start = min(bible_range.start for bible_range in self)
+        end = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start.first_verse(flags=flags), end=end.last_verse(), flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1355,10 +1354,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
-                          flags=flags)
+        start = min(bible_range.start for bible_range in self)
+        end = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start.book.first_verse(flags=flags), end=end.book.last_verse(), flags=flags)
 
     def sort(self, regroup: bool = True):
         '''Sorts this list in-place. All existing groups are cleared and replaced with a single
-- 
2.43.0


From cd4438276157ac31a1f81bb0a5384969017b39a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:42 +0000
Subject: [PATCH 15/24] fix: negative indices beyond the start of a list raise
 IndexError

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 00623d6..5b18fc8 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -89,7 +89,7 @@ class GroupedList(MutableSequence):
             '''
             if group_index < 0:
                 group_index += self.parent._group_count
-            if group_index >= self.parent._group_count:
+            if group_index < 0 or group_index >= self.parent._group_count:
                 raise IndexError(f"Group index {group_index} out of range")
             return group_index
 
@@ -215,7 +215,7 @@ class GroupedList(MutableSequence):
         '''
         if index < 0:
             index += self._node_count
-        if index >= self._node_count:
+        if index < 0 or index >= self._node_count:
             raise IndexError(f"List index {index} out of range")
         return index
 
-- 
2.43.0


From ab19c05417d555da41ea42fa16f21962b1472126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:45 +0000
Subject: [PATCH 16/24] fix: index() on an empty list raises ValueError

---
 src/bibleref/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 5b18fc8..574a1ec 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -436,6 +436,8 @@ class GroupedList(MutableSequence):
         if limit_index is None:
             limit_index = self._node_count
         self._check_type(value)
+        if self._node_count == 0:
+            raise ValueError(f"Value {value} not found in list")
         min_index = self._conform_index(min_index)
         limit_index = self._conform_index(limit_index-1) + 1
         if min_index > limit_index: # Swap
-- 
2.43.0


From a1740c39f12eeef539a4c9d27c8c314014d24fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:49 +0000
Subject: [PATCH 17/24] fix: merge sublists iteratively, so sorting a long list
 cannot exceed the recursion limit

---
 src/bibleref/util.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 574a1ec..a87f950 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -610,25 +610,23 @@ class GroupedList(MutableSequence):
                               first_node_B: 'GroupedList._Node', last_node_B: 'GroupedList._Node'):
         '''Combines two sublists (A and B) into a single sorted list. Returns a tuple of
         (new_first_node, new_last_node)'''
-        if first_node_A is None:
-            return (first_node_B, last_node_B)
-        if first_node_B is None:
-            return (first_node_A, last_node_A)
-        
-        if first_node_A <=  first_node_B: # Nodes compare using their values
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A.next, last_node_A,
-                                                                    first_node_B, last_node_B)
-            first_node_A.next = next_first_node
-            next_first_node.prev = first_node_A
-            first_node_A.prev = None
-            return (first_node_A, new_last_node)
-        else: # first_node_B is less than first_node_A
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A,
-                                                                    first_node_B.next, last_node_B)
-            first_node_B.next = next_first_node
-            next_first_node.prev = first_node_B
-            first_node_B.prev = None
-            return (first_node_B, new_last_node)
+        new_first_node = None
+        new_last_node = None
+        while first_node_A is not None or first_node_B is not None:
+            # Take the lower of the two first nodes (nodes compare using their values), preferring A if equal.
+            if first_node_B is None or (first_node_A is not None and first_node_A <= first_node_B):
+                node = first_node_A
+                first_node_A = node.next
+            else:
+                node = first_node_B
+                first_node_B = node.next
+            node.prev = new_last_node
+            if new_last_node is None:
+                new_first_node = node
+            else:
+                new_last_node.next = node
+            new_last_node = node
+        return (new_first_node, new_last_node)
 
     #
     # End of sort-related methods
-- 
2.43.0


From d4b4f083d02ce6836a74873f6fd7e3f4e8fefa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:52 +0000
Subject: [PATCH 18/24] fix: inserting a group at an existing group head
 changes nothing

---
 src/bibleref/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index a87f950..20797dd 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -321,6 +321,9 @@ class GroupedList(MutableSequence):
         if node is self._first:
             # First node is always already a group.
             return
+        if node.is_group_head:
+            # Node already starts a group.
+            return
         node.is_group_head = True
         prev_group_head = self._find_group_head(node.prev)
         node.prev_head = prev_group_head
-- 
2.43.0


From e103043d1b23f62438b782f9e7a89ceae764f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:56 +0000
Subject: [PATCH 19/24] fix: extending a list with itself or one of its groups
 terminates

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 20797dd..fe71aff 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -487,13 +487,13 @@ class GroupedList(MutableSequence):
         
         The new items all form a single new group.'''
         is_first_item = True
-        for item in iterable:
+        for item in list(iterable): # A copy, in case iterable is (a view of) this list
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        for item in iterable:
+        for item in list(iterable): # A copy, in case iterable is (a view of) this list
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From 855ccc4afeb9b930c145fd6eb7405db641f3c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:59 +0000
Subject: [PATCH 20/24] fix: group views obtained before clear() are refused
 afterwards

---
 src/bibleref/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index fe71aff..c12aaae 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -531,6 +531,10 @@ class GroupedList(MutableSequence):
 
     def clear(self):
         '''Removes all items from the list.'''
+        node = getattr(self, "_first", None)
+        while node is not None: # Detach existing nodes, so that any GroupViews of them are refused
+            node.parent = None
+            node = node.next
         self._first: GroupedList._Node = None          # First node
         self._last: GroupedList._Node = None           # Last node
         self._node_count: int = 0                    # Count of nodes
-- 
2.43.0


From 9d5a395910dd16ec9ad69044ae6f7857cbf564d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:02 +0000
Subject: [PATCH 21/24] fix: comparing a list with something that has no length
 answers False

---
 src/bibleref/util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index c12aaae..9f75027 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -657,11 +657,11 @@ class GroupedList(MutableSequence):
         
         If `compare_groups` is `True`, `other_iterable` must also be a `GroupedList` and the groups of the
         two lists must match, otherwise returns `False`.'''
-        if len(self) != len(other_iterable):
-            return False
         if compare_groups:
             if not isinstance(other_iterable, GroupedList):
                 return False
+            if len(self) != len(other_iterable):
+                return False
             if self._group_count != other_iterable._group_count:
                 return False
             self_groups = list(self.groups)
@@ -674,7 +674,12 @@ class GroupedList(MutableSequence):
                 except ValueError:
                     return False
         else:
-            for self_item, other_item in zip(self, other_iterable):
+            if not isinstance(other_iterable, Iterable):
+                return False
+            other_items = list(other_iterable)
+            if len(self) != len(other_items):
+                return False
+            for self_item, other_item in zip(self, other_items):
                 if self_item != other_item:
                     return False
         return True
-- 
2.43.0


From 4e26c095cac5cb492b23e81551490cc0d395bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:26 +0000
Subject: [PATCH 22/24] fix: the printed no-space title SongofSongs is
 recognised as a book name

---
 src/bibleref/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 63b9697..9c4a637 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -297,7 +297,7 @@ default_name_data = {
     ref.BibleBook.Psa:      ("Psa",     "Psalms",           2,   ["Pslm", "Psm", "Pss"]),
     ref.BibleBook.Prov:     ("Prov",    "Proverbs",         2,   ["Prv"]),
     ref.BibleBook.Eccl:     ("Eccl",    "Ecclesiastes",     2,   []),
-    ref.BibleBook.Song:     ("Song",    "Song of Songs",    2,   ["Song of Sol", "Song of Solo", "Song of Solomon", "SOS"]),
+    ref.BibleBook.Song:     ("Song",    "Song of Songs",    2,   ["Song of Songs", "Song of Sol", "Song of Solo", "Song of Solomon", "SOS"]),
     ref.BibleBook.Isa:      ("Isa",     "Isaiah",           2,   []),
     ref.BibleBook.Jer:      ("Jer",     "Jeremiah",         2,   ["Jr"]),
     ref.BibleBook.Lam:      ("Lam",     "Lamentations",     2,   []),
-- 
2.43.0


From 8dc17b1c6fc39aadc3f412b62723995cee8bc6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 23/24] fix: in-place intersection and symmetric difference
 keep the regrouped result

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 22bc758..6c6b0fc 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1473,7 +1473,8 @@ class BibleRangeList(util.GroupedList):
         '''
         intersection_list = self.intersection(other_ref, flags=flags)
         self.clear()
-        self.extend(intersection_list)
+        for group in intersection_list.groups: # Keep the grouping of the consolidated list
+            self.append_group(group)
 
     def difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this `BibleRangeList`, but not in `other_ref`.
@@ -1550,7 +1551,8 @@ class BibleRangeList(util.GroupedList):
         '''
         sym_difference_list = self.sym_difference(other_ref, flags=flags)
         self.clear()
-        self.extend(sym_difference_list)
+        for group in sym_difference_list.groups: # Keep the grouping of the consolidated list
+            self.append_group(group)
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 8f98b02c597ec244a1f424db6db756da422d5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:12 +0000
Subject: [PATCH 24/24] fix: count a whole chapter or book that also includes
 its verse 0

---
 src/bibleref/ref.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 6c6b0fc..853d549 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -841,9 +841,9 @@ class BibleRange:
         bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap(flags):
+            if not bible_ranges[0].spans_end_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
+            if len(bible_ranges) > 1 and not bible_ranges[-1].spans_end_chap(flags):
                 count -= 1
         return count
 
@@ -855,9 +855,9 @@ class BibleRange:
         bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book(flags):
+            if not bible_ranges[0].spans_end_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
+            if len(bible_ranges) > 1 and not bible_ranges[-1].spans_end_book(flags):
                 count -= 1
         return count
 
-- 
2.43.0

