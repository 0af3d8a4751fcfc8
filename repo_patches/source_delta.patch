From dbfd5b5247119115db880dbfaf304c357e851a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:01 +0000
Subject: [PATCH 01/14] fix: OkapiIndex.clear() resets the total document
 length

---
 src/zope/index/text/okapiindex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index a243398..ac1739e 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -232,6 +232,9 @@ class OkapiIndex(BaseIndex):
         # in compressed form, so uncompressing it just to count the list
         # length would be ridiculously expensive.
 
+    def clear(self):
+        BaseIndex.clear(self)
+
         # sum(self._docweight.values()), the total # of words in all docs
         # This is a long for "better safe than sorry" reasons.  It isn't
         # used often enough that speed should matter.
-- 
2.43.0


From ca2884ec42d291e39902ebc5d573c3c2c4e3c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:47 +0000
Subject: [PATCH 02/14] fix: make clearing topic filters part of the
 transaction

---
 src/zope/index/topic/filter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index dbaa98d..9fa4c90 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -39,7 +39,14 @@ class FilteredSetBase:
         self.clear()
 
     def clear(self):
-        self._ids = self.family.IF.Set()
+        ids = getattr(self, '_ids', None)
+        if ids is None:
+            self._ids = self.family.IF.Set()
+        else:
+            # The filtered set itself is not persistent: emptying the
+            # persistent set of docids makes the change part of the
+            # transaction, assigning a new one would not.
+            ids.clear()
 
     def index_doc(self, docid, context):
         raise NotImplementedError
-- 
2.43.0


From f0cd4a820a2d88378a1b22d69a656cb11d04c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:57 +0000
Subject: [PATCH 03/14] fix: TopicIndex.apply() leaves the query dict alone

---
 src/zope/index/topic/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 673f660..cdfc6fc 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -107,6 +107,6 @@ class TopicIndex(Persistent):
         operator = 'and'
         if isinstance(query, dict):
             if 'operator' in query:
-                operator = query.pop('operator')
+                operator = query['operator']
             query = query['query']
         return self.search(query, operator=operator)
-- 
2.43.0


From d68fb8e418d58cb72ab8ccb47ed794d0660898a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:07 +0000
Subject: [PATCH 04/14] fix: a reindexed document leaves filters it no longer
 matches; storage failures and interrupts are not swallowed

---
 src/zope/index/topic/filter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index 9fa4c90..d2df443 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -80,7 +80,11 @@ class PythonFilteredSet(FilteredSetBase):
 
     def index_doc(self, docid, context):
         try:
-            if eval(self.expr):
-                self._ids.insert(docid)
-        except BaseException:
-            pass  # ignore errors
+            matches = bool(eval(self.expr))
+        except Exception:
+            matches = False  # ignore errors
+        if matches:
+            self._ids.insert(docid)
+        else:
+            # the document may have matched when it was last indexed
+            self.unindex_doc(docid)
-- 
2.43.0


From 904b5c2db2c5071ef0df480959b373a6eea6f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:18 +0000
Subject: [PATCH 05/14] fix: unindex_doc() reports missing database records
 instead of leaving the work half done

---
 src/zope/index/field/index.py   | 17 +++++++----------
 src/zope/index/keyword/index.py | 25 +++++++++++++------------
 src/zope/index/topic/filter.py  |  5 ++---
 3 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index b273023..244b841 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -92,17 +92,14 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
 
         del rev_index[docid]
 
-        try:
-            set = self._fwd_index[value]
+        # Not try/except KeyError: ZODB's POSKeyError is a KeyError.
+        # A docid missing from the forward index is fishy, but we don't want
+        # to raise an error.  We should probably log something.
+        set = self._fwd_index.get(value)
+        if set is not None and docid in set:
             set.remove(docid)
-        except KeyError:  # pragma: no cover
-            # This is fishy, but we don't want to raise an error.
-            # We should probably log something.
-            # but keep it from throwing a dirty exception
-            set = 1
-
-        if not set:
-            del self._fwd_index[value]
+            if not set:
+                del self._fwd_index[value]
 
         self._num_docs.change(-1)
 
diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 96bb9ab..ecf848b 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -116,20 +116,21 @@ class KeywordIndex(Persistent):
     def unindex_doc(self, docid):
         idx = self._fwd_index
 
-        try:
-            for word in self._rev_index[docid]:
-                idx[word].remove(docid)
-                if not idx[word]:
-                    del idx[word]
-        except KeyError:
-            # 'WAAA!  Inconsistent'
+        # Not try/except KeyError: ZODB's POSKeyError is a KeyError.
+        words = self._rev_index.get(docid)
+        if words is None:
             return
 
-        try:
-            del self._rev_index[docid]
-        except KeyError:  # pragma: no cover
-            # 'WAAA!  Inconsistent'
-            pass
+        for word in words:
+            docids = idx.get(word)
+            if docids is None or docid not in docids:
+                # 'WAAA!  Inconsistent'
+                return
+            docids.remove(docid)
+            if not docids:
+                del idx[word]
+
+        del self._rev_index[docid]
 
         self._num_docs.change(-1)
 
diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index d2df443..e295a5d 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -52,10 +52,9 @@ class FilteredSetBase:
         raise NotImplementedError
 
     def unindex_doc(self, docid):
-        try:
+        # Not try/except KeyError: ZODB's POSKeyError is a KeyError.
+        if docid in self._ids:
             self._ids.remove(docid)
-        except KeyError:
-            pass
 
     def getId(self):
         return self.id
-- 
2.43.0


From d87e6bd69709988349885ac0471d98892593e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:13 +0000
Subject: [PATCH 06/14] fix: phrase searches do not match words whose encoded
 id has the last word's as prefix

---
 src/zope/index/text/baseindex.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 3076b89..c30a5e4 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -208,8 +208,16 @@ class BaseIndex(Persistent):
         result = self.family.IF.BTree()
         for docid, weight in hits.items():
             docwords = self._docwords[docid]
-            if docwords.find(code) >= 0:
-                result[docid] = weight
+            pos = docwords.find(code)
+            while pos >= 0:
+                # The code of the last word may also be the beginning of a
+                # longer one:  every code starts with, and only with, a
+                # character >= 0x80.
+                end = pos + len(code)
+                if end == len(docwords) or docwords[end] >= '\x80':
+                    result[docid] = weight
+                    break
+                pos = docwords.find(code, pos + 1)
         return result
 
     def _remove_oov_wids(self, wids):
-- 
2.43.0


From 47bf10b94c061ec861594d2a036a5985153f5d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:23 +0000
Subject: [PATCH 07/14] fix: converting a keyword's set of docids conflicts
 with concurrent insertions instead of losing them

---
 src/zope/index/keyword/index.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index ecf848b..cc7dd19 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -150,7 +150,19 @@ class KeywordIndex(Persistent):
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
-                idx[word] = TreeSet(word_idx)
+                idx[word] = self._replace_docids(word_idx, TreeSet)
+
+    def _replace_docids(self, old, factory):
+        """Return a copy of a set of docids, made with factory.
+
+        Empties the old set, item by item: every bucket of it has to be part
+        of the change, otherwise a docid inserted by a concurrent transaction
+        would go to the old set without a conflict, and be lost.
+        """
+        new = factory(old)
+        for docid in new:
+            old.remove(docid)
+        return new
 
     def _insert_reverse(self, docid, words):
         """ add words to forward index """
@@ -212,11 +224,11 @@ class KeywordIndex(Persistent):
             if len(word_idx) >= self.tree_threshold:
                 if not isinstance(word_idx, TreeSet):
                     # Convert to a TreeSet.
-                    idx[word] = TreeSet(word_idx)
+                    idx[word] = self._replace_docids(word_idx, TreeSet)
             else:
                 if isinstance(word_idx, TreeSet):
                     # Convert to a Set.
-                    idx[word] = Set(word_idx)
+                    idx[word] = self._replace_docids(word_idx, Set)
 
 
 class CaseInsensitiveKeywordIndex(KeywordIndex):
-- 
2.43.0


From b5cf6bcf7ddf430a5973bf7975d6793204042110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:34 +0000
Subject: [PATCH 08/14] fix: keyword and topic searches do not return the
 index's own set of docids

---
 src/zope/index/keyword/index.py | 3 +++
 src/zope/index/topic/index.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index cc7dd19..ff6db24 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -193,6 +193,9 @@ class KeywordIndex(Persistent):
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
+            if len(sets) == 1:
+                # the intersection of a single set is that very object
+                rs = self.family.IF.Set(rs)
         else:
             raise TypeError('Keyword index only supports `and` and `or` '
                             'operators, not `%s`.' % operator)
diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index cdfc6fc..82a345e 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -94,6 +94,9 @@ class TopicIndex(Persistent):
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
+            if len(sets) == 1:
+                # the intersection of a single set is that very object
+                rs = self.family.IF.Set(rs)
         else:
             raise TypeError('Topic index only supports `and` and `or` '
                             'operators, not `%s`.' % operator)
-- 
2.43.0


From 832361858833f7834c0efc1218fec4fec8fc2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:43 +0000
Subject: [PATCH 09/14] fix: FieldIndex.sort() copes with ids that are not
 indexed and with None values

---
 src/zope/index/field/sorting.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 0c44012..dfd2758 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -50,9 +50,15 @@ class SortingIndexMixin:
 
         fwd_index = getattr(self, self._sorting_fwd_index_attr)
         rev_index = getattr(self, self._sorting_rev_index_attr)
-        getValue = lambda x, d=-1: rev_index.get(x, d)  # noqa: E731 use def
         marker = object()
 
+        def getKey(docid):
+            # Like in the forward BTree, None sorts before all other values.
+            value = rev_index.get(docid, marker)
+            if value is marker:
+                return marker
+            return (value is not None, value)
+
         # use_lazy and use_nbest computations lifted wholesale from
         # Zope2 catalog without questioning reasoning
         use_lazy = rlen > numdocs * (rlen / 100 + 1)
@@ -72,9 +78,9 @@ class SortingIndexMixin:
 
             def nsort():
                 for docid in docids:
-                    val = getValue(docid, marker)
-                    if val is not marker:
-                        yield (val, docid)
+                    key = getKey(docid)
+                    if key is not marker:
+                        yield (key, docid)
 
             iterable = nsort()
 
@@ -126,9 +132,13 @@ class SortingIndexMixin:
                 # of documents in this index, or if we need to sort in
                 # reverse order, use a non-lazy sort.
                 n = 0
-                for docid in sorted(docids, key=getValue, reverse=reverse):
-                    if getValue(docid, marker) is not marker:
-                        n += 1
-                        yield docid
-                        if limit and n >= limit:
-                            return
+                keys = {}
+                for docid in docids:
+                    key = getKey(docid)
+                    if key is not marker:
+                        keys[docid] = key
+                for docid in sorted(keys, key=keys.get, reverse=reverse):
+                    n += 1
+                    yield docid
+                    if limit and n >= limit:
+                        return
-- 
2.43.0


From 26ee033e9b4efda279742ba8e17d350e97f0da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:52 +0000
Subject: [PATCH 10/14] fix: a document left without keywords by normalization
 is not indexed

---
 src/zope/index/keyword/index.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index ff6db24..3f9c268 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -83,15 +83,14 @@ class KeywordIndex(Persistent):
             raise TypeError('seq argument must be a list/tuple of strings')
 
         old_kw = self._rev_index.get(docid, None)
-        if not seq:
+        new_kw = self.family.OO.Set(self.normalize(seq) if seq else ())
+
+        # the normalized keywords count: there may be none left
+        if not new_kw:
             if old_kw:
                 self.unindex_doc(docid)
             return
 
-        seq = self.normalize(seq)
-
-        new_kw = self.family.OO.Set(seq)
-
         if old_kw is None:
             self._insert_forward(docid, new_kw)
             self._insert_reverse(docid, new_kw)
-- 
2.43.0


From 83b01eb1cf22cb16ae5e6005cc548774755f452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 11/14] fix: an aborted text index update leaves no trace in
 the word maps

---
 src/zope/index/text/baseindex.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index c30a5e4..1d7cd90 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -284,8 +284,10 @@ class BaseIndex(Persistent):
             if (isinstance(doc2score, type({})) and
                     len(doc2score) == self.DICT_CUTOFF):
                 doc2score = self.family.IF.BTree(doc2score)
+        # Not redundant:  Persistency!  And before the dict is changed:  an
+        # abort does not undo what was done to an unregistered object.
+        self._wordinfo[wid] = doc2score
         doc2score[docid] = f
-        self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
 
     #    self._mass_add_wordinfo(wid2weight, docid)
     #
@@ -307,8 +309,9 @@ class BaseIndex(Persistent):
             elif (isinstance(doc2score, dicttype) and
                   len(doc2score) == self.DICT_CUTOFF):
                 doc2score = self.family.IF.BTree(doc2score)
+            # Not redundant:  Persistency!  See _add_wordinfo().
+            self._wordinfo[wid] = doc2score
             doc2score[docid] = weight
-            self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
         try:
             self.wordCount.change(new_word_count)
         except AttributeError:
@@ -317,10 +320,10 @@ class BaseIndex(Persistent):
 
     def _del_wordinfo(self, wid, docid):
         doc2score = self._wordinfo[wid]
+        # Not redundant:  Persistency!  See _add_wordinfo().
+        self._wordinfo[wid] = doc2score
         del doc2score[docid]
-        if doc2score:
-            self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
-        else:
+        if not doc2score:
             del self._wordinfo[wid]
             try:
                 self.wordCount.change(-1)
-- 
2.43.0


From 980383a521c2fadc16d4c6952299d0099c8eecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 12/14] fix: take the prefix of a glob pattern literally

---
 src/zope/index/text/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 2ed331a..ae053aa 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -119,7 +119,7 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = prefix
+        pat = re.escape(prefix)
         for c in pattern:
             if c == "*":
                 pat += ".*"
-- 
2.43.0


From b89eff30dc039eb6201d1d1229217440892bc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:21 +0000
Subject: [PATCH 13/14] fix: the lexicon does not swallow interrupts

---
 src/zope/index/text/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index ae053aa..d24d69c 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -159,7 +159,7 @@ def _text2list(text):
     # Helper: splitter input may be a string or a list of strings
     try:
         text + ""
-    except BaseException:
+    except Exception:
         return text
     else:
         return [text]
-- 
2.43.0


From d9dc38bd32636ca1de42ba6d3511fc3a96cb5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 14/14] fix: decode_deltas() uses each difference once and in
 place

---
 src/zope/index/text/ricecode.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 555ffcc..393966f 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -186,10 +186,8 @@ def decode_deltas(start, enc_deltas):
     l_ = [start]
     if not enc_deltas:
         return l_
-    deltas = enc_deltas.tolist()
-    for i in range(1, len(deltas)):
-        l_.append(l_[i - 1] + deltas[i])
-    l_.append(l_[-1] + deltas[-1])
+    for delta in enc_deltas.tolist():
+        l_.append(l_[-1] + delta)
     return l_
 
 
-- 
2.43.0

