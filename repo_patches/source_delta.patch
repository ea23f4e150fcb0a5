From 21f5706ce9a46b84d22b1a96feea17b0e7f695ab Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 1/9] fix: give each loaded dictionary its own tag class

The tag class was shared by all dictionaries and re-initialized by every
load (and every compilation): creating an analyzer changed, and for a moment
emptied, the grammemes known to the tags of all other analyzers.
---
 pymorphy2/opencorpora_dict/storage.py | 10 ++--
 pymorphy2/tagset.py                   | 73 +++++++++++++++++++--------
 2 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/pymorphy2/opencorpora_dict/storage.py b/pymorphy2/opencorpora_dict/storage.py
index 9eaf728..d6f25a5 100644
--- a/pymorphy2/opencorpora_dict/storage.py
+++ b/pymorphy2/opencorpora_dict/storage.py
@@ -94,6 +94,7 @@ def save_compiled_dict(compiled_dict, out_path, source_name, language_code):
 
     gramtab_formats = {}
     for format, Tag in tagset.registry.items():
+        Tag = Tag._clone_class()
         Tag._init_grammemes(compiled_dict.parsed_dict.grammemes)
         new_gramtab = [Tag._from_internal_tag(tag) for tag in compiled_dict.gramtab]
 
@@ -177,10 +178,13 @@ def _load_tag_class(gramtab_format, grammemes_filename):
     if gramtab_format not in tagset.registry:
         raise ValueError("This gramtab format ('%s') is unsupported." % gramtab_format)
 
-    # FIXME: clone the class
-    Tag = tagset.registry[gramtab_format] #._clone_class()
-
     grammemes = json_read(grammemes_filename)
+
+    # make unpickled tags and tags created without an analyzer work
+    BaseTag = tagset.registry[gramtab_format]
+    BaseTag._init_grammemes(grammemes)
+
+    Tag = BaseTag._clone_class()
     Tag._init_grammemes(grammemes)
 
     return Tag
diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e294a6f..e84b223 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -61,11 +61,12 @@ class OpencorporaTag(object):
 
     .. warning::
 
-        In order to work properly, the class has to be globally
+        In order to work properly, the class has to be
         initialized with actual grammemes (using _init_grammemes method).
 
-        Pymorphy2 initializes it when loading a dictionary;
-        it may be not a good idea to use this class directly.
+        Pymorphy2 creates a subclass for each loaded dictionary;
+        it may be not a good idea to use this class directly
+        (it knows grammemes of all dictionaries loaded so far).
         If possible, use ``morph_analyzer.TagClass`` instead.
 
     Example::
@@ -237,10 +238,13 @@ class OpencorporaTag(object):
     }
     _GRAMMEME_INDICES = collections.defaultdict(int)
     _GRAMMEME_INCOMPATIBLE = collections.defaultdict(set)
-    _LAT2CYR = None
-    _CYR2LAT = None
+    _LAT2CYR = {}
+    _CYR2LAT = {}
     KNOWN_GRAMMEMES = set()
 
+    # A class this class is cloned from (see _clone_class)
+    _origin = None
+
     _NUMERAL_AGREEMENT_GRAMMEMES = (
         set(['sing', 'nomn']),
         set(['sing', 'accs']),
@@ -374,7 +378,10 @@ class OpencorporaTag(object):
         return len(self._grammemes_tuple)
 
     def __reduce__(self):
-        return self.__class__, (self._str,), None
+        # classes created by _clone_class can't be pickled
+        cls = self._origin or self.__class__
+        grammemes = [(g, self._LAT2CYR.get(g, g)) for g in self._grammemes_tuple]
+        return _restore_tag, (cls, self._str, grammemes), None
 
 
     def is_productive(self):
@@ -428,6 +435,8 @@ class OpencorporaTag(object):
         cls.KNOWN_GRAMMEMES.add(lat)
         cls._LAT2CYR[lat] = cyr
         cls._CYR2LAT[cyr] = lat
+        if cls._origin is not None:
+            cls._origin.add_grammemes_to_known(lat, cyr, overwrite)
 
     @classmethod
     def _init_grammemes(cls, dict_grammemes):
@@ -443,9 +452,6 @@ class OpencorporaTag(object):
             ]
 
         """
-        cls.KNOWN_GRAMMEMES = set()
-        cls._CYR2LAT = {}
-        cls._LAT2CYR = {}
         for name, parent, alias, description in dict_grammemes:
             cls.add_grammemes_to_known(name, alias)
 
@@ -460,14 +466,14 @@ class OpencorporaTag(object):
                 children[gr[parent]].add(name)
 
         # expand EXTRA_INCOMPATIBLE
+        extra_incompatible = {}
         for grammeme, g_set in cls._EXTRA_INCOMPATIBLE.items():
-            for g in g_set.copy():
-                g_set.update(children[g])
+            extra_incompatible[grammeme] = g_set.union(*[children[g] for g in g_set])
 
         # fill GRAMMEME_INDICES and GRAMMEME_INCOMPATIBLE
         for index, (name, parent, alias, description) in enumerate(dict_grammemes):
             cls._GRAMMEME_INDICES[name] = index
-            incompatible = cls._EXTRA_INCOMPATIBLE.get(name, set())
+            incompatible = extra_incompatible.get(name, set())
             incompatible = (incompatible | children[parent]) - set([name])
 
             cls._GRAMMEME_INCOMPATIBLE[name] = frozenset(incompatible)
@@ -511,13 +517,24 @@ class OpencorporaTag(object):
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[4]
         return grammemes
 
-    #@classmethod
-    #def _clone_class(cls):
-    #    Tag = type(cls.__name__, (cls,), {
-    #         'KNOWN_GRAMMEMES': cls.KNOWN_GRAMMEMES.copy(),
-    #    })
-    #    # copyreg.pickle(Tag, pickle_tag)
-    #    return Tag
+    @classmethod
+    def _clone_class(cls):
+        """
+        Return a subclass with its own grammeme information.
+
+        There is a subclass for each dictionary: if it was a single class
+        then loading a dictionary would change tags of other dictionaries.
+        """
+        return type(cls)(cls.__name__, (cls,), dict(
+            __slots__=(),
+            __doc__=cls.__doc__,
+            _origin=cls,
+            _GRAMMEME_INDICES=collections.defaultdict(int),
+            _GRAMMEME_INCOMPATIBLE=collections.defaultdict(set),
+            _LAT2CYR={},
+            _CYR2LAT={},
+            KNOWN_GRAMMEMES=set(),
+        ))
 
 
 
@@ -533,6 +550,12 @@ class CyrillicOpencorporaTag(OpencorporaTag):
 
     FORMAT = 'opencorpora-ext'
 
+    _GRAMMEME_INDICES = collections.defaultdict(int)
+    _GRAMMEME_INCOMPATIBLE = collections.defaultdict(set)
+    _LAT2CYR = {}
+    _CYR2LAT = {}
+    KNOWN_GRAMMEMES = set()
+
     _GRAMMEME_ALIAS_MAP = dict()
 
     @classmethod
@@ -573,8 +596,16 @@ class CyrillicOpencorporaTag(OpencorporaTag):
 
     @classmethod
     def _init_alias_map(cls, dict_grammemes):
-        for name, parent, alias, description in dict_grammemes:
-            cls._GRAMMEME_ALIAS_MAP[name] = alias
+        cls._GRAMMEME_ALIAS_MAP = collections.OrderedDict(
+            (name, alias) for name, parent, alias, description in dict_grammemes
+        )
+
+
+def _restore_tag(cls, tag_str, grammemes):
+    """ Create a pickled tag; its grammemes may be unknown in this process """
+    for lat, cyr in grammemes:
+        cls.add_grammemes_to_known(lat, cyr, overwrite=False)
+    return cls(tag_str)
 
 
 def _translate_tag(tag, mapping):
-- 
2.43.0


From 8d27773df05c0820c7012c852d08b5478f62bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 2/9] fix: keep probability_estimator_cls and char_substitutes
 when an analyzer is pickled

---
 pymorphy2/analyzer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 7c27e70..6b20d68 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -17,7 +17,15 @@ logger = logging.getLogger(__name__)
 _Parse = collections.namedtuple('Parse', 'word, tag, normal_form, score, methods_stack')
 
 _score_getter = operator.itemgetter(3)
-auto = object()
+
+
+class _Auto(object):
+    def __reduce__(self):
+        # it is compared by identity, so unpickle it to the same object
+        return str('auto')
+
+
+auto = _Auto()
 
 
 class Parse(_Parse):
@@ -193,6 +201,8 @@ class MorphAnalyzer(object):
         # save arguments for pickling/unpickling
         self._path = path
         self._lang = lang
+        self._probability_estimator_cls = probability_estimator_cls
+        self._char_substitutes_orig = char_substitutes
 
         if path is None and lang is None:
             lang = 'ru'
@@ -440,5 +450,6 @@ class MorphAnalyzer(object):
         return self.TagClass.lat2cyr(tag_or_grammeme)
 
     def __reduce__(self):
-        args = (self._path, self._lang, self._result_type_orig, self._units_unbound)
+        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
+                self._probability_estimator_cls, self._char_substitutes_orig)
         return self.__class__, args, None
-- 
2.43.0


From 54d63a90d0bb0c020d9a531fce3339cc966d4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 3/9] fix: don't leave a mix of two dictionaries loadable if
 overwriting is interrupted

---
 pymorphy2/opencorpora_dict/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/storage.py b/pymorphy2/opencorpora_dict/storage.py
index d6f25a5..a4dbd0d 100644
--- a/pymorphy2/opencorpora_dict/storage.py
+++ b/pymorphy2/opencorpora_dict/storage.py
@@ -90,6 +90,12 @@ def save_compiled_dict(compiled_dict, out_path, source_name, language_code):
     logger.info("Saving...")
     _f = lambda path: os.path.join(out_path, path)
 
+    # A folder without meta.json is not a dictionary. It is written last;
+    # if there is an old one then remove it before changing other files:
+    # a mix of old and new files shouldn't be loaded if saving is interrupted.
+    if os.path.exists(_f('meta.json')):
+        os.remove(_f('meta.json'))
+
     json_write(_f('grammemes.json'), compiled_dict.parsed_dict.grammemes)
 
     gramtab_formats = {}
-- 
2.43.0


From aaa14c2ddc05adb485d693202480e90775241268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 4/9] fix: replace dictionary metadata and probabilities
 atomically

---
 pymorphy2/opencorpora_dict/probability.py | 5 +++--
 pymorphy2/opencorpora_dict/storage.py     | 7 +++++--
 pymorphy2/utils.py                        | 5 +++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pymorphy2/opencorpora_dict/probability.py b/pymorphy2/opencorpora_dict/probability.py
index 1d25e7d..ae3cea2 100644
--- a/pymorphy2/opencorpora_dict/probability.py
+++ b/pymorphy2/opencorpora_dict/probability.py
@@ -13,7 +13,7 @@ from pymorphy2 import MorphAnalyzer
 from pymorphy2.opencorpora_dict.preprocess import tag2grammemes
 from pymorphy2.dawg import ConditionalProbDistDAWG
 from pymorphy2.opencorpora_dict.storage import update_meta
-from pymorphy2.utils import with_progress
+from pymorphy2.utils import with_progress, replace_file
 
 
 def add_conditional_tag_probability(corpus_filename, out_path, min_word_freq,
@@ -32,7 +32,8 @@ def add_conditional_tag_probability(corpus_filename, out_path, min_word_freq,
     logger.info("Encoding P(t|w) as DAWG")
     d = build_cpd_dawg(morph, cpd, int(min_word_freq))
     dawg_filename = os.path.join(out_path, 'p_t_given_w.intdawg')
-    d.save(dawg_filename)
+    d.save(dawg_filename + '.tmp')
+    replace_file(dawg_filename + '.tmp', dawg_filename)
 
     logger.info("Updating meta information")
     meta_filename = os.path.join(out_path, 'meta.json')
diff --git a/pymorphy2/opencorpora_dict/storage.py b/pymorphy2/opencorpora_dict/storage.py
index a4dbd0d..fefb32f 100644
--- a/pymorphy2/opencorpora_dict/storage.py
+++ b/pymorphy2/opencorpora_dict/storage.py
@@ -20,7 +20,7 @@ except AttributeError:
 import pymorphy2
 from pymorphy2 import tagset
 from pymorphy2 import dawg
-from pymorphy2.utils import json_write, json_read
+from pymorphy2.utils import json_write, json_read, replace_file
 
 logger = logging.getLogger(__name__)
 
@@ -169,7 +169,10 @@ def write_meta(filename, meta):
     """ Save metadata to a file. """
     if isinstance(meta, dict):
         meta = list(meta.items())
-    json_write(filename, meta)
+    # existing metadata must stay readable if writing is interrupted
+    tmp_filename = filename + '.tmp'
+    json_write(tmp_filename, meta)
+    replace_file(tmp_filename, filename)
 
 
 def update_meta(filename, extra):
diff --git a/pymorphy2/utils.py b/pymorphy2/utils.py
index 474eb8d..ae180cb 100644
--- a/pymorphy2/utils.py
+++ b/pymorphy2/utils.py
@@ -83,6 +83,11 @@ def json_write(filename, obj, **json_options):
         json.dump(obj, f, **json_options)
 
 
+def replace_file(src, dst):
+    """ Move file ``src`` to ``dst``, replacing ``dst`` if it exists """
+    getattr(os, 'replace', os.rename)(src, dst)
+
+
 def json_read(filename, **json_options):
     """ Read an object from a json file ``filename`` """
     with codecs.open(filename, 'r', 'utf8') as f:
-- 
2.43.0


From 50686c68b40cf58b87b59c5451f7d556c8946eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 5/9] fix: report a failure to create the output folder of a
 dictionary

---
 pymorphy2/opencorpora_dict/compile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index e6a95e5..1e0e2cf 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -6,6 +6,7 @@ to pymorphy2 representation.
 """
 from __future__ import absolute_import, unicode_literals
 import os
+import errno
 import logging
 import collections
 import itertools
@@ -376,7 +377,9 @@ def _create_out_path(out_path, overwrite=False):
     try:
         logger.debug("Creating output folder %s", out_path)
         os.mkdir(out_path)
-    except OSError:
+    except OSError as e:
+        if e.errno != errno.EEXIST:
+            raise
         if overwrite:
             logger.info("Output folder already exists, overwriting..")
         else:
-- 
2.43.0


From cb90c96136bb37b3b6a7b6f018a2f64707d902d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 6/9] fix: don't share numeral agreement sets with callers

---
 pymorphy2/tagset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e84b223..5fcae59 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -515,7 +515,7 @@ class OpencorporaTag(object):
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[3]
         else:
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[4]
-        return grammemes
+        return set(grammemes)
 
     @classmethod
     def _clone_class(cls):
-- 
2.43.0


From 6077c745a0de4fe4bd61fb80198a35a0d86fb26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 7/9] fix: accept --lang, --dict and --verbose options in
 'pymorphy parse'

docopt's [options] shortcut excludes options mentioned in any of usage patterns.
---
 pymorphy2/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/cli.py b/pymorphy2/cli.py
index cd062f3..cd2e1e6 100644
--- a/pymorphy2/cli.py
+++ b/pymorphy2/cli.py
@@ -24,7 +24,7 @@ Pymorphy2 is a morphological analyzer / inflection engine for Russian language.
 __doc__ = """
 Usage::
 
-    pymorphy parse [options] [<input>]
+    pymorphy parse [options] [--lang <lang>] [--dict <path>] [--verbose] [<input>]
     pymorphy dict meta [--lang <lang> | --dict <path>]
     pymorphy dict mem_usage [--lang <lang> | --dict <path>] [--verbose]
     pymorphy -h | --help
-- 
2.43.0


From 31a47762c375658c17839574ca3e0bf5c648f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:13 +0000
Subject: [PATCH 8/9] fix: don't load a mix of two dictionaries if one is
 overwritten while loading

---
 pymorphy2/opencorpora_dict/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/storage.py b/pymorphy2/opencorpora_dict/storage.py
index fefb32f..0bc131b 100644
--- a/pymorphy2/opencorpora_dict/storage.py
+++ b/pymorphy2/opencorpora_dict/storage.py
@@ -70,6 +70,11 @@ def load_dict(path, gramtab_format='opencorpora-int'):
         assert os.path.exists(fn)
         prediction_suffixes_dawgs.append(dawg.PredictionSuffixesDAWG().load(fn))
 
+    # meta.json is removed before other files are overwritten and it is written
+    # last, so if it is the same then all files are of the same dictionary.
+    if load_meta(_f('meta.json')).get('compiled_at') != meta.get('compiled_at'):
+        raise ValueError("Error loading dictionaries from %s: they were overwritten while loading." % path)
+
     return LoadedDictionary(
         meta=meta,
         gramtab=gramtab,
-- 
2.43.0


From 89c118d877432899a2de78e71236a06349d7cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:59 +0000
Subject: [PATCH 9/9] fix: don't deadlock in a forked process if another thread
 was creating an analyzer

---
 pymorphy2/analyzer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 6b20d68..d58f716 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -453,3 +453,13 @@ class MorphAnalyzer(object):
         args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
                 self._probability_estimator_cls, self._char_substitutes_orig)
         return self.__class__, args, None
+
+
+def _renew_lock():
+    MorphAnalyzer._lock = threading.RLock()
+
+
+if hasattr(os, 'register_at_fork'):
+    # If another thread creates an analyzer when the process forks, then there
+    # is nobody to release the lock in the forked process.
+    os.register_at_fork(after_in_child=_renew_lock)
-- 
2.43.0

