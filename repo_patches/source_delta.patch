From 00d00fa73e0db0af06464e33190e512697803f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 01/10] fix: don't fail on letters without an Unicode name in
 is_latin

---
 pymorphy2/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index e203981..1e8eb5c 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -14,7 +14,7 @@ def is_latin_char(uchr):
     except KeyError:
         if isinstance(uchr, bytes):
             uchr = uchr.decode('ascii')
-        is_latin = 'LATIN' in unicodedata.name(uchr)
+        is_latin = 'LATIN' in unicodedata.name(uchr, '')
         return _latin_letters_cache.setdefault(uchr, is_latin)
 
 
-- 
2.43.0


From 5db0102584088b7f060ebf37dea7e0f6ea393608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 02/10] fix: don't treat a trailing line break as a part of a
 Roman number

---
 pymorphy2/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index 1e8eb5c..934c013 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -69,7 +69,7 @@ def is_punctuation(token):
 
 
 # The regex is from "Dive into Python" book.
-ROMAN_NUMBERS_RE = re.compile("""
+ROMAN_NUMBERS_RE = re.compile(r"""
     M{0,4}              # thousands - 0 to 4 M's
     (CM|CD|D?C{0,3})    # hundreds - 900 (CM), 400 (CD), 0-300 (0 to 3 C's),
                         #            or 500-800 (D, followed by 0 to 3 C's)
@@ -77,7 +77,7 @@ ROMAN_NUMBERS_RE = re.compile("""
                         #        or 50-80 (L, followed by 0 to 3 X's)
     (IX|IV|V?I{0,3})    # ones - 9 (IX), 4 (IV), 0-3 (0 to 3 I's),
                         #        or 5-8 (V, followed by 0 to 3 I's)
-    $                   # end of string
+    \Z                  # end of string
 """, re.VERBOSE | re.IGNORECASE)
 
 def is_roman_number(token, _match=ROMAN_NUMBERS_RE.match):
-- 
2.43.0


From 900b550ef83c73da9a7eb39b8c8298d2d96256f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 03/10] fix: don't divide by zero when all parses of a word
 part have zero P(t|w)

---
 pymorphy2/analyzer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 7c27e70..aa06cc6 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -79,7 +79,14 @@ class ProbabilityEstimator(object):
 
         if sum(probs) == 0:
             # no P(t|w) information is available; return normalized estimate
-            k = 1.0 / sum(map(_score_getter, parses))
+            total = sum(map(_score_getter, parses))
+            if total == 0:
+                # P(t|w) of a word part gives zero to all its remaining parses
+                return [
+                    (word, tag, normal_form, 1.0/len(parses), methods_stack)
+                    for (word, tag, normal_form, score, methods_stack) in parses
+                ]
+            k = 1.0 / total
             return [
                 (word, tag, normal_form, score*k, methods_stack)
                 for (word, tag, normal_form, score, methods_stack) in parses
-- 
2.43.0


From e17360f8bee1d3d72a14fb786484c98c0ecd5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 04/10] fix: count tag spellings after redundant grammemes are
 replaced

Spellings were counted for the original tags, but looked up for the tags
with loc1, gen1 and acc1 replaced, so simplification could put 'loc1' back
('loct,sing' became 'sing,loc1' if the latter was more frequent).
---
 pymorphy2/opencorpora_dict/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/preprocess.py b/pymorphy2/opencorpora_dict/preprocess.py
index 7247cc5..f9c280a 100644
--- a/pymorphy2/opencorpora_dict/preprocess.py
+++ b/pymorphy2/opencorpora_dict/preprocess.py
@@ -76,7 +76,7 @@ def _get_tag_spellings(parsed_dict):
     """
     spellings = collections.defaultdict(lambda: collections.defaultdict(int))
     for tag in _itertags(parsed_dict):
-        spellings[tag2grammemes(tag)][tag] += 1
+        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1
     return spellings
 
 
-- 
2.43.0


From 93591cfd4f6aa884b5f75511632a1580832dd62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 05/10] fix: don't lose forms (or hang) when lexeme links form
 a cycle

A lexeme joined to itself was emptied, and following links to it looped
forever.
---
 pymorphy2/opencorpora_dict/compile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index e6a95e5..8514b93 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -225,6 +225,9 @@ def _join_lexemes(lexemes, links):
         while to_id in moves:
             to_id = moves[to_id]
 
+        if to_id == from_id:  # links form a cycle
+            return
+
         lexemes[str(to_id)].extend(lm)
         del lm[:]
         moves[from_id] = to_id
-- 
2.43.0


From a345a8d66b900968a6cfb9f91a33e686372b5334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 06/10] fix: keep probability estimator class and char
 substitutes when pickling an analyzer

__reduce__ dropped these two arguments, so an unpickled analyzer silently
used the defaults.
---
 pymorphy2/analyzer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index aa06cc6..08f3683 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -17,7 +17,15 @@ logger = logging.getLogger(__name__)
 _Parse = collections.namedtuple('Parse', 'word, tag, normal_form, score, methods_stack')
 
 _score_getter = operator.itemgetter(3)
-auto = object()
+
+
+class _Auto(object):
+    """ Type of ``auto`` constant; the constant is pickled by reference. """
+    def __reduce__(self):
+        return str('auto')
+
+
+auto = _Auto()
 
 
 class Parse(_Parse):
@@ -200,6 +208,8 @@ class MorphAnalyzer(object):
         # save arguments for pickling/unpickling
         self._path = path
         self._lang = lang
+        self._probability_estimator_cls = probability_estimator_cls
+        self._char_substitutes = char_substitutes
 
         if path is None and lang is None:
             lang = 'ru'
@@ -447,5 +457,6 @@ class MorphAnalyzer(object):
         return self.TagClass.lat2cyr(tag_or_grammeme)
 
     def __reduce__(self):
-        args = (self._path, self._lang, self._result_type_orig, self._units_unbound)
+        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
+                self._probability_estimator_cls, self._char_substitutes)
         return self.__class__, args, None
-- 
2.43.0


From 7335020364e344b133ab5defacf9b100afaa9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 07/10] fix: count each ending of a short word once

word[-i:] is the whole word when i is greater than its length, so words
shorter than max_suffix_length were counted several times: an ending which
is a single word could pass min_ending_freq, and the counts used for scoring
were inflated.
---
 pymorphy2/opencorpora_dict/compile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index 8514b93..546cb83 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -320,7 +320,8 @@ def _suffixes_prediction_data(words, paradigm_popularity, gramtab, paradigms, su
 
         POS = tuple(tag.replace(' ', ',', 1).split(','))[0]
 
-        for i in range(max(len(form_suffix), 1), max_suffix_length+1): #was: 1,2,3,4,5
+        max_length = min(max_suffix_length, len(word))
+        for i in range(max(len(form_suffix), 1), max_length+1): #was: 1,2,3,4,5
             word_end = word[-i:]
             ending_counts[word_end] += 1
             prefix_endings[form_prefix_id][word_end][POS][(para_id, idx)] += 1
-- 
2.43.0


From 4a3427b2172225ed4d75ddcdc8cd5d65cddf4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 08/10] fix: compute incompatible grammemes of a dictionary
 without those of the dictionaries loaded before

Tag._init_grammemes added the children of grammemes to the class-level
_EXTRA_INCOMPATIBLE sets, so what inflection considered incompatible depended
on other dictionaries loaded in the process.
---
 pymorphy2/tagset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e294a6f..ef46e9b 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -460,14 +460,17 @@ class OpencorporaTag(object):
                 children[gr[parent]].add(name)
 
         # expand EXTRA_INCOMPATIBLE
+        extra_incompatible = {}
         for grammeme, g_set in cls._EXTRA_INCOMPATIBLE.items():
-            for g in g_set.copy():
-                g_set.update(children[g])
+            expanded = set(g_set)
+            for g in g_set:
+                expanded.update(children[g])
+            extra_incompatible[grammeme] = expanded
 
         # fill GRAMMEME_INDICES and GRAMMEME_INCOMPATIBLE
         for index, (name, parent, alias, description) in enumerate(dict_grammemes):
             cls._GRAMMEME_INDICES[name] = index
-            incompatible = cls._EXTRA_INCOMPATIBLE.get(name, set())
+            incompatible = extra_incompatible.get(name, set())
             incompatible = (incompatible | children[parent]) - set([name])
 
             cls._GRAMMEME_INCOMPATIBLE[name] = frozenset(incompatible)
-- 
2.43.0


From f1c6fe3af2ba14820072307c70b10bce11a08695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 09/10] fix: accept --lang and --dict in 'pymorphy parse'

docopt's [options] leaves out the options that other usage patterns name, so
the documented options were rejected.
---
 pymorphy2/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/cli.py b/pymorphy2/cli.py
index cd062f3..f205624 100644
--- a/pymorphy2/cli.py
+++ b/pymorphy2/cli.py
@@ -24,7 +24,7 @@ Pymorphy2 is a morphological analyzer / inflection engine for Russian language.
 __doc__ = """
 Usage::
 
-    pymorphy parse [options] [<input>]
+    pymorphy parse [options] [--lang <lang> | --dict <path>] [<input>]
     pymorphy dict meta [--lang <lang> | --dict <path>]
     pymorphy dict mem_usage [--lang <lang> | --dict <path>] [--verbose]
     pymorphy -h | --help
-- 
2.43.0


From c35726cae19a40ef5c131c351078595153b608ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 10/10] fix: do not re-initialize the tag class when the same
 grammemes are loaded again

Creating an analyzer emptied KNOWN_GRAMMEMES and the other tables of the tag
class while analyzers in other threads were using them, so e.g. inflect()
could raise an exception there. The lock covers only the creation.
---
 pymorphy2/tagset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index ef46e9b..1218e35 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -443,6 +443,11 @@ class OpencorporaTag(object):
             ]
 
         """
+        dict_grammemes = [tuple(item) for item in dict_grammemes]
+        if cls.__dict__.get('_dict_grammemes') == dict_grammemes:
+            # Already initialized; analyzers in other threads may be using it.
+            return
+
         cls.KNOWN_GRAMMEMES = set()
         cls._CYR2LAT = {}
         cls._LAT2CYR = {}
@@ -475,6 +480,8 @@ class OpencorporaTag(object):
 
             cls._GRAMMEME_INCOMPATIBLE[name] = frozenset(incompatible)
 
+        cls._dict_grammemes = dict_grammemes
+
     # XXX: do we still need these methods?
     @classmethod
     def _from_internal_tag(cls, tag):
-- 
2.43.0

