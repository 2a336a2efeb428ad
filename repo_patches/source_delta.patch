From 0a4a6d62d1cccc86cb44103cca3bc5af236c119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 01/40] fix: parse ids that have an output name and no
 parameters

The visitor told [out_name, id] from [id, key-values] by counting children, so an
id like "kurt=moments()" raised ValueError.
---
 whatami/parsers.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7cd8852..4a64e8c 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -6,6 +6,7 @@
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
+from future.utils import string_types
 from whatami import maybe_import
 
 
@@ -243,16 +244,11 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     @staticmethod
     def visit_whatami_id(_, children):
         from whatami import What
-        # lengths can be 1, 2 or 3
-        if 3 == len(children):
-            out_name, an_id, kvs = children
-        elif 2 == len(children):
-            an_id, kvs = children
-            out_name = None
-        else:
-            an_id = children[0]
-            kvs = []
-            out_name = None
+        # Both the output name (a string) and the key-values (a collection) are optional
+        children = list(children)
+        kvs = [] if isinstance(children[-1], string_types) else children.pop()
+        an_id = children.pop()
+        out_name = children.pop() if children else None
         return What(an_id, dict(list(kvs)), out_name=out_name)
 
     @staticmethod
-- 
2.43.0


From e4e154647de2a6db8b6be5abf5dc7d18974b63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 02/40] fix: parse nested ids whose name starts like a literal

PEG ordered choice is greedy: a value like "nanmean(x=1)" or "NoneType()" was
consumed as the literal prefix and then failed. Try ids before these literals.
---
 whatami/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 4a64e8c..e960967 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -102,7 +102,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
     # Key-values
 
     def value():
-        return [a_none, a_bool, a_number, a_string, a_tuple, a_list, a_set, a_dict, a_class, whatami_id]
+        # N.B. order matters: an id can start like a literal (nanmean(), NoneType()...) or like a set
+        return [a_string, a_tuple, a_list, a_set, a_dict, a_class, whatami_id, a_none, a_bool, a_number]
 
     def kv():
         return an_id, StrMatch('='), value
-- 
2.43.0


From bcd4244082c49dd27b4de4097227071ac3465bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 03/40] fix: keep leading whitespace when parsing strings

The parser skips whitespace between terminals, so the one following an opening
quote was lost. Make the whole string literal just one terminal.
---
 whatami/parsers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index e960967..2930377 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -50,7 +50,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. just one terminal, so that whitespace after the opening quote is not skipped
+        return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
         return StrMatch('True')
@@ -153,12 +154,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
             return float(node.value)
 
     @staticmethod
-    def visit_a_string(_, children):
-        if 1 == len(children):
-            return children[0]
-        elif 0 == len(children):
-            return ''
-        raise ValueError('unexpected string children: %r' % children)  # pragma: no cover
+    def visit_a_string(node, _):
+        return node.value[1:-1]
 
     @staticmethod
     def visit_a_true(*_):
@@ -340,7 +337,8 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. just one terminal, so that whitespace after the opening quote is not skipped
+        return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From 9a30cf39799069b13ef28b0cab0f5ee08cb951ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 04/40] fix: parse frozensets back as frozensets

---
 whatami/parsers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 2930377..b96b31f 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -216,12 +216,13 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         return dict(list(children[0]))
 
     @staticmethod
-    def visit_an_empty_set(*_):
-        return set()
+    def visit_an_empty_set(node, _):
+        return frozenset() if node.value.startswith('frozenset') else set()
 
     @staticmethod
-    def visit_a_non_empty_set(_, children):
-        return set(list(children[0]))
+    def visit_a_non_empty_set(node, children):
+        clazz = frozenset if node.value.startswith('frozenset') else set
+        return clazz(list(children[0]))
 
     # Key-values
 
-- 
2.43.0


From 7cbad9452eb7da9cd8d0404a0cbe64ad8e3962ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 05/40] fix: parse classes that live in builtins

"<class 'dict'>" has no module, so importing it raised ValueError.
---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index b96b31f..e4b5aa7 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -182,7 +182,7 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_class(_, children):
         module, _, clazz = children[0].rpartition('.')
         try:
-            return getattr(maybe_import(module), clazz)
+            return getattr(maybe_import(module or 'builtins'), clazz)
         except (ImportError, AttributeError):
             # Unfortunately it breaks roundtripping, but is a lesser evil
             return {'class': children[0]}
-- 
2.43.0


From 84dad5a8aff1f2bd9d3ea497efb6100b532c5017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 06/40] fix: parse empty dictionaries in old-style ids

Non-empty sets were allowed to be empty in the old grammar, shadowing dictionaries.
---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index e4b5aa7..360adac 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -377,7 +377,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return StrMatch('set()')
 
     def a_non_empty_set():
-        return StrMatch('{'), Optional(list_elements), StrMatch('}')
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
-- 
2.43.0


From 0d89e48992b6170c42af2bcfb8bac7d2553435a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 07/40] fix: make What hashable, consistently with equality

Defining __eq__ alone makes What unhashable in python 3, so ids with sets of
configurations (like "A(x={int(),f()})") could not be parsed back.
---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 0f85db4..3405072 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -202,6 +202,10 @@ class What(object):
                 hasattr(other, 'conf') and self.conf == other.conf and
                 hasattr(other, 'out_name') and self.out_name == other.out_name)
 
+    def __hash__(self):
+        """Equal configurations have equal hashes (parameters, possibly unhashable, are not considered)."""
+        return hash((self.name, self.out_name))
+
     def __str__(self):
         """The default representation is the configuration string including non_ids keys."""
         return self.id(nonids_too=True)
-- 
2.43.0


From 14d1e4af4c1cceee03f9aa5f78df937c384ed213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 08/40] fix: trim_dict must keep keys when there is no prefix
 or postfix to exclude

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4537a41..95500ed 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -480,8 +480,8 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     A copy of cd with only the allowed keys.
     """
     return {k: v for k, v in cd.items() if
-            (exclude_prefix and not k.startswith(exclude_prefix)) and
-            (exclude_postfix and not k.endswith(exclude_postfix)) and
+            not (exclude_prefix and k.startswith(exclude_prefix)) and
+            not (exclude_postfix and k.endswith(exclude_postfix)) and
             k not in set(excludes)}
 
 
-- 
2.43.0


From 265172a86d8e904fe1a6eb33cc30818bc82dc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 09/40] fix: trim_dict must not consume "excludes" more than
 once

---
 whatami/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 95500ed..a6f18e7 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -479,10 +479,11 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     -------
     A copy of cd with only the allowed keys.
     """
+    excludes = set(excludes)
     return {k: v for k, v in cd.items() if
             not (exclude_prefix and k.startswith(exclude_prefix)) and
             not (exclude_postfix and k.endswith(exclude_postfix)) and
-            k not in set(excludes)}
+            k not in excludes}
 
 
 def config_dict_for_object(obj,
-- 
2.43.0


From 247dea8c0367f68effc2d6a2b7f586cda34c592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 10/40] fix: allow to remove registry entries giving both
 nickname and what

The nickname was looked up as if it were an id, so it never matched.
---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b627b2d..fcf0304 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -70,7 +70,7 @@ class WhatamiRegistry(object):
             whatid = self.nick2id(nickname)
         else:
             old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(nickname)
+            old_nick = self.id2nick(whatid)
             if old_whatid != whatid or old_nick != nickname:
                 raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
                                  (whatid, old_whatid, nickname, old_nick))
-- 
2.43.0


From 226ba045368bf98a3b4421ed4ea98451b64b8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 11/40] fix: Recorder must own its list of postprocessors

add_record_postprocessors was modifying the list provided by the caller.
---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index fcf0304..6471f91 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -512,7 +512,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             raise ValueError('id_column_name must be a string')  # pragma: no cover
         self.id_column_name = id_column_name
         self._column_defaults = column_defaults
-        self._record_postprocessors = [] if not record_postprocessors else record_postprocessors
+        self._record_postprocessors = [] if not record_postprocessors else list(record_postprocessors)
 
     # --- Column defaults
 
-- 
2.43.0


From 4e5842969343369dd9ddde71243b7fd96f1aa3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 12/40] fix: unbox iterables also for ids that cannot be used
 as keyword names

An id called "default" or a non-string id made Recorder.add fail with TypeError.
---
 whatami/registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 6471f91..90c17f5 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -106,8 +106,8 @@ class WhatamiRegistry(object):
 
 class _DefaultDict(dict):
     """Like collections.defaultdict, but does not add missing keys to the dictionary."""
-    def __init__(self, default, **kwargs):
-        super(_DefaultDict, self).__init__(**kwargs)
+    def __init__(self, default, *args):
+        super(_DefaultDict, self).__init__(*args)
         self.default = default
 
     def __getitem__(self, key):
@@ -561,7 +561,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             if warn and len(ids) != len(params):  # pragma: no cover
                 print('WARNING: number of names is different to the number of parameters (%d != %d)' %
                       (len(ids), len(params)))
-            return _DefaultDict(None, **dict(zip(ids, params)))
+            return _DefaultDict(None, zip(ids, params))
         return _DefaultDict(default=params)
 
     def add(self, ids, unbox_iterables=True,
-- 
2.43.0


From 5ecbebfe4f58fbfa04ddfd8e49601bd0dbb44389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 13/40] fix: Recorder.add must not consume ids more than once

With no id extractor, an iterator of ids was exhausted by the first column and
no record was added.
---
 whatami/registry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 90c17f5..51a9602 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -620,8 +620,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
         if isinstance(ids, string_types) or not is_iterable(ids):
             ids = [ids]
         # Get whatami ids (maybe this should be left to the caller)
-        if self.id_extractor is not None:
-            ids = list(map(self.id_extractor, ids))
+        ids = list(ids) if self.id_extractor is None else list(map(self.id_extractor, ids))
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0


From 4a9d2550d22ff110288c2a38986641dbbfcaf591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 14/40] fix: match_whatids must not consume "ignored_keys" more
 than once

---
 whatami/whatutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8f41fff..df6d2c6 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -305,6 +305,8 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
                                                            collections_too=collections_too,
                                                            recursive=recursive)
 
+    ignored_keys = set(ignored_keys)
+
     def ignore_key(key, ignored_keys):
         if key in ignored_keys:
             return True
@@ -315,7 +317,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
 
     def not_ignored_values(keys, values):
         return [(value.name, value.out_name) if isinstance(value, What) else value
-                for key, value in zip(keys, values) if not ignore_key(key, set(ignored_keys))]
+                for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
         if what.name != template_name:
-- 
2.43.0


From 9b412476d8e81a5e58eb84eb5cb2dd220c358be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 15/40] fix: allow to sort any iterable of whats or whatids

Iterators were exhausted when extracting the values, giving an empty result.
---
 whatami/whatutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index df6d2c6..3d29c47 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -173,6 +173,7 @@ def sort_whats(whats, *keys):
     >>> [what['lag'] for what in whats_sorted]
     [-2, -1, 0, 1, 2]
     """
+    whats = list(whats)
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
     return tuple(zip(*[(whatid, value) for value, whatid in sorted(zip(values, whats), key=itemgetter(0))]))
@@ -194,6 +195,7 @@ def sort_whatids(whatids, *keys):
     >>> [what['lag'] for what in map(id2what, ids_sorted)]
     [-2, -1, 0, 1, 2]
     """
+    whatids = list(whatids)
     whats = map(id2what, whatids)  # if this is bottleneck, allow to pass what themselves
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
-- 
2.43.0


From 770b9263a1696f2523f3d0ce3f13e7d27ff4aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 16/40] fix: honor non_id_keys when whatamising functions

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 3405072..ca6172e 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -519,7 +519,8 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=excludes)
+            all_non_id_keys = set(excludes) | set(() if non_id_keys is None else non_id_keys)
+            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=all_non_id_keys)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From 6e87b193edacf4c012672ec9f890159fa338e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 17/40] fix: give each what() of a whatamised function its own
 configuration

All the What objects shared (and could modify) a single dictionary.
---
 whatami/what.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index ca6172e..3cbd3fa 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -520,7 +520,10 @@ def whatable(obj=None,
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
             all_non_id_keys = set(excludes) | set(() if non_id_keys is None else non_id_keys)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=all_non_id_keys)
+
+            def what():
+                return What(name=name, conf=config_dict.copy(), non_id_keys=all_non_id_keys)
+            whatablefunc.what = what
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From af7e7a74a3a28f217adf0b4e636e840212599c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 18/40] fix: call2what must take a snapshot of the caller's
 variables

The configuration was the frame's own dictionary: it changed after the call.
---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 3d29c47..1b16eaf 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -231,7 +231,7 @@ def call2what(depth=1, non_id_keys=None):
     frame, _, _, name, _, _ = inspect.stack()[depth]
     # we could probably be (too) clever here and get only the function parameter values
     # also we could add a parameter to automatically grab only keywords... for next iteration
-    conf_dict = frame.f_locals
+    conf_dict = dict(frame.f_locals)
     return What(name, conf=conf_dict, non_id_keys=non_id_keys)
 
 
-- 
2.43.0


From 3034613c4ad9e5033716a8d769368048aa40392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 19/40] fix: id2dict must also convert configurations nested in
 collections

---
 whatami/whatutils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 1b16eaf..075d2c3 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -95,11 +95,17 @@ def id2dict(whatid):
     whatid : string
       a whatami id string
     """
-    what = id2what(whatid)
-    return {'whatami_name': what.name,
-            'whatami_out_name': what.out_name,
-            'whatami_conf': {k: (v if not isinstance(v, What) else v.to_dict())
-                             for k, v in what.conf.items()}}
+    def to_dict(v):
+        if isinstance(v, What):
+            return {'whatami_name': v.name,
+                    'whatami_out_name': v.out_name,
+                    'whatami_conf': {k: to_dict(kv) for k, kv in v.conf.items()}}
+        if isinstance(v, dict):
+            return {k: to_dict(kv) for k, kv in v.items()}
+        if isinstance(v, (list, tuple)):
+            return type(v)([to_dict(e) for e in v])
+        return v
+    return to_dict(id2what(whatid))
 
 
 def obj2what(obj,
-- 
2.43.0


From 88a7351f0ece66d7e3debd35eddda9aa84625e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 20/40] fix: maybe_import must prefer the first variant that
 can be imported

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index a6f18e7..7d89d5c 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -710,6 +710,7 @@ class _LazyImportError(object):
         for variant in variants:
             try:
                 self.module = import_module(variant)
+                break
             except ImportError as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
-- 
2.43.0


From 90af5dbe6fb11d58e6bf16e02e1e44aed63782dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 21/40] fix: do not fail to generate ids when numpy or pandas
 are missing

When these libraries cannot be imported, np and pd are not None but proxies
that raise ImportError on any access.
---
 whatami/plugins.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index f20fd10..43ea727 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -212,26 +212,26 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return pd is not None
+    return inspect.ismodule(pd)
 
 
 def numpy_plugin(v):
     """Represents numpy arrays as "class(hash='xxx')"."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.ndarray):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
 
 
 def rng_plugin(v):
     """Represents a numpy rng as a string RandomState(state=xxx)."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.random.RandomState):
             return "%s(state=%s)" % (v.__class__.__name__, whatareyou(v.__getstate__()).id())
 
 
 def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
-    if pd is not None and hasher is not None:
+    if has_pandas() and hasher is not None:
         if isinstance(v, (pd.DataFrame, pd.Series)):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
     #
-- 
2.43.0


From f9032da7edba95742d6e9cb0749fc889f6791139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 22/40] fix: addressing a missing nested key is a KeyError

Descending into something that is not a container (or out of the bounds of a
list) raised AttributeError or IndexError, so get() and whatid2columns failed.
---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 3cbd3fa..a316ddf 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -228,7 +228,11 @@ class What(object):
                 for key in item:
                     try:
                         w = w[key]
+                    except IndexError:
+                        raise KeyError(item)
                     except TypeError:
+                        if not hasattr(w, 'what'):
+                            raise KeyError(item)
                         w = w.what()[key]
                 return w
             raise
-- 
2.43.0


From bfaf990e3ae3226b1ac87b666ed4d8d440f0ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 23/40] fix: accept positional arguments of partials for
 parameters with defaults

partial(f, 1) failed if the first parameter of f had a default value.
---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 7d89d5c..96abc8c 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -304,7 +304,6 @@ def callable2call(c, closure_extractor=lambda c: c):
             args = [] if not args else args
             args_set = set(args)
             # Check that everything is fine...
-            keywords = dict(chain(zip(args[-len(defaults):], defaults), keywords.items()))  # N.B. order matters
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
             keywords_set = set(keywords.keys())
             if len(keywords_set - args_set) > 0:
@@ -316,8 +315,9 @@ def callable2call(c, closure_extractor=lambda c: c):
             if len(args_set) - len(keywords_set) < len(positional):
                 raise ValueError('There are too many positional arguments indicated '
                                  'for the number of unbound positional parameters left.')
+            defaults = zip(args[-len(defaults):], defaults)
             return c.__name__.replace('<', '').replace('>', ''), \
-                dict(list(keywords.items()) + list(pos2keyword.items()))
+                dict(chain(defaults, keywords.items(), pos2keyword.items()))  # N.B. order matters
         if isinstance(c, partial):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
-- 
2.43.0


From 9bfad6f894a87d5de19deb24d2030827e2061128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 24/40] fix: hash frozensets independently of the order of
 their elements

---
 whatami/minijoblib/hashing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a46a360..d7466d4 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -156,6 +156,12 @@ class Hasher(Pickler):
 
     dispatch[type(set())] = save_set
 
+    def save_frozenset(self, set_items):
+        # same, but do not hash like the set with the same elements
+        Pickler.save(self, (frozenset, _ConsistentSet(set_items)))
+
+    dispatch[type(frozenset())] = save_frozenset
+
 
 class NumpyHasher(Hasher):
     """ Special case the hasher for when numpy is loaded.
-- 
2.43.0


From 02880c78a4bfd41bb187dadf7d8af1eaefb9dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 25/40] fix: positional ids must show each value just once

The values of nested configurations were also repeated at the top level.
---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index a316ddf..b4de52e 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -290,7 +290,7 @@ class What(object):
         """
         from whatami.plugins import WhatamiPluginManager
         my_id = '%s(%s)' % (self.name, ','.join(map(WhatamiPluginManager.build_string,
-                                                    self.values(non_ids_too=non_ids_too))))
+                                                    self.values(non_ids_too=non_ids_too, recursive=False))))
         if self.out_name is not None:
             my_id = '%s=%s' % (self.out_name, my_id)
         return self._trim_too_long(my_id, maxlength=maxlength)
-- 
2.43.0


From 903acee0dd3ce1d3d7f69061859782deb6f14da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 26/40] fix: make undeclared sklearn objects without parameters
 whatable

For example, RepeatedKFold does not have get_params and it is not declared.
---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index a8c2f90..597596c 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -603,8 +603,8 @@ def _what_for_sklearn(x, use_short=True):
     except AttributeError:
         return obj2what(x,
                         force_inspect=True,
-                        name_override=pinfo.short_name if use_short else name,
-                        non_id_keys=pinfo.non_id_params)
+                        name_override=pinfo.short_name if pinfo is not None and use_short else name,
+                        non_id_keys=pinfo.non_id_params if pinfo is not None else None)
     if pinfo is not None:
         return What(pinfo.short_name if use_short else name,
                     conf=configuration_dict,
-- 
2.43.0


From 9b48f2dcafb8fa37f49456f63c8b74c9dfd2c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 27/40] fix: hash all the items of mappings whose keys cannot
 be sorted

The items can be an iterator (pickle reduce protocol), and the failed sort already consumed it.
---
 whatami/minijoblib/hashing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index d7466d4..9f2cad0 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -138,6 +138,7 @@ class Hasher(Pickler):
 
     def _batch_setitems(self, items):
         # forces order of keys in dict to ensure consistent hash.
+        items = list(items)  # can be a single-use iterator
         try:
             # Trying first to compare dict assuming the type of keys is
             # consistent and orderable.
-- 
2.43.0


From 05f69673fac4abff1d0f73061ddc497dc4852fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 28/40] fix: extract columns from whatids also when one has the
 name of the whatids column

---
 whatami/whatutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 075d2c3..532a173 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -381,11 +381,14 @@ def whatid2columns(df, whatid_col, columns=None, prefix='', postfix='', inplace=
     if not inplace:
         df = df.copy()
 
+    # one of the new columns can replace the column with the whatids
+    whatids = df[whatid_col]
+
     for column in columns:
         column_name = _key2colname(column)
         if isinstance(column, list):
             column = tuple(column)
-        df[prefix + column_name + postfix] = df[whatid_col].apply(
+        df[prefix + column_name + postfix] = whatids.apply(
             lambda whatid: _get_or_none(whats[whatid], column))
 
     return df
-- 
2.43.0


From add711aa7c3bd0d2bc30063f92320ccce743180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 29/40] fix: run the postprocessors given to Recorder.add on
 all the records, also when they can be iterated only once

---
 whatami/registry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 51a9602..9811300 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -621,6 +621,8 @@ class Recorder(with_metaclass(_RecorderMeta)):
             ids = [ids]
         # Get whatami ids (maybe this should be left to the caller)
         ids = list(ids) if self.id_extractor is None else list(map(self.id_extractor, ids))
+        if record_postprocessors is not None:
+            record_postprocessors = list(record_postprocessors)
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
@@ -647,7 +649,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             postprocessors = list(self._record_postprocessors)
             if record_postprocessors is not None:
                 if not override_postprocessors:
-                    postprocessors += list(record_postprocessors)
+                    postprocessors += record_postprocessors
                 else:
                     postprocessors = list(record_postprocessors)
             # noinspection PyTypeChecker
-- 
2.43.0


From 27e13b2ec5ac4166a773ca2e2d385c3d08c51326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:19 +0000
Subject: [PATCH 30/40] fix: keep the order of the positional arguments of
 partials of curried functions

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 96abc8c..01a25ee 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -322,7 +322,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
                 c.func,
-                positional=positional + list(c.args),                  # N.B. order matters
+                positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
-- 
2.43.0


From 1a893b07308b556de35006a06b0e3e18ff89e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 31/40] fix: describe whatable classes like any other class

Their what() is for their instances: asking it of the class raised a TypeError,
also from the ids of configurations with such a class among their parameters.
---
 whatami/misc.py      |  5 +++++
 whatami/plugins.py   |  4 ++--
 whatami/whatutils.py | 17 +++++++++--------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 01a25ee..d7b3bd7 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -592,6 +592,11 @@ def is_iterable(v):
     return True
 
 
+def is_unbound_class_member(obj, name):
+    """Checks whether obj is a class and its member `name` is a method of its instances."""
+    return inspect.isclass(obj) and getattr(getattr(obj, name), '__self__' if PY3 else 'im_self', None) is None
+
+
 # --- Metaprogramming (aka black magic) tools
 
 def decorate_some(name='DecorateSome', **decorators):
diff --git a/whatami/plugins.py b/whatami/plugins.py
index 43ea727..8b3215b 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -15,7 +15,7 @@ from whatami import getargspec, is_whatable
 from whatami.misc import maybe_import
 
 from .what import What, whatareyou
-from .misc import callable2call, config_dict_for_object, curry2partial
+from .misc import callable2call, config_dict_for_object, curry2partial, is_unbound_class_member
 from .minijoblib.hashing import hasher
 
 
@@ -35,7 +35,7 @@ def whatable_plugin(v):
 
     This should be second in the plugin chain to allow free specialisation of the what method.
     """
-    if is_whatable(v):
+    if is_whatable(v) and not is_unbound_class_member(v, 'what'):
         what = v.what
         what = what() if callable(what) else what
         return what_plugin(what)
diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 532a173..e999f58 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -17,6 +17,7 @@ from arpeggio import NoMatch
 from whatami import (config_dict_for_object,
                      parse_whatid, build_oldwhatami_parser,
                      whatareyou, What, is_whatable, maybe_import)
+from whatami.misc import is_unbound_class_member
 
 
 def whatamize_object(clazz_or_fqn, what_func, fail_on_import_error=True, force=False):
@@ -69,13 +70,13 @@ def what2id(obj):
         return None
     if isinstance(obj, string_types):
         return obj
-    try:
-        return obj.what().id()
-    except AttributeError:
-        try:
-            return obj.id()
-        except AttributeError:
-            return whatareyou(obj).id()
+    for name in ('what', 'id'):
+        if callable(getattr(obj, name, None)) and not is_unbound_class_member(obj, name):
+            try:
+                return obj.id() if name == 'id' else obj.what().id()
+            except AttributeError:
+                pass
+    return whatareyou(obj).id()
 
 
 # An alias for whatami.parse_whatid
@@ -135,7 +136,7 @@ def obj2what(obj,
     >>> print(obj2what(id2what, excludes=('parser',)).id())
     parse_whatid(visitor=None)
     """
-    if not force_inspect and is_whatable(obj):  # do not move this to whatareyou, or we face infinite recursion
+    if not force_inspect and is_whatable(obj) and not is_unbound_class_member(obj, 'what'):  # do not move this to whatareyou, or we face infinite recursion
         return obj.what()
     return whatareyou(obj,
                       name_override=name_override,
-- 
2.43.0


From 0e761e50e7401a6e40f75c52ba45ebe8d9989e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 32/40] fix: import the submodules of the package, not those of
 others of the same name

walk_packages without a prefix goes down by importing top level modules named like the
subpackages. Also, tell about errors within subpackages when asked not to ignore them.
---
 whatami/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index d7b3bd7..b942097 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import
 # noinspection PyProtectedMember
 from future.utils import PY3, string_types
 
-from pkgutil import walk_packages
+from pkgutil import iter_modules
 
 from functools import partial
 from itertools import chain
@@ -825,7 +825,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 return results
             raise
     results[package.__name__] = package
-    for _, name, is_pkg in walk_packages(package.__path__):
+    for _, name, is_pkg in iter_modules(package.__path__):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
@@ -834,7 +834,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 raise
         if recurse_packages and is_pkg:
             try:
-                results.update(import_submodules(full_name))
+                results.update(import_submodules(full_name, ignore_errors=ignore_errors))
             except ImportError:  # pragma: no cover
                 if not ignore_errors:
                     raise
-- 
2.43.0


From 3528fc7cc70c7f5f0e5ccb0ffdbafb513c22d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 33/40] fix: maybe_import_member accepts variants (it passed
 install_msg twice)

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index b942097..dbd76ce 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -791,7 +791,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
     if not module:
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
-        return getattr(maybe_import(module, install_msg=install_msg, *variants), member)
+        return getattr(maybe_import(module, install_msg, *variants), member)
     except ImportError:
         if fail_if_import_error:
             raise
-- 
2.43.0


From 19c0736088c53afca7f4324ea7e99d2b65d9adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 34/40] fix: has_numpy and has_pandas tell when the libraries
 are missing

isinstance (so inspect.ismodule) asks the placeholder for its __class__, which raises ImportError.
---
 whatami/plugins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 8b3215b..ee80ed7 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -9,6 +9,7 @@ from future.utils import string_types, PY2
 import inspect
 from collections import OrderedDict
 from functools import partial
+from types import ModuleType
 
 from whatami import getargspec, is_whatable
 
@@ -204,7 +205,7 @@ np = maybe_import('numpy', 'conda')
 
 def has_numpy():
     """Returns True iff numpy can be imported."""
-    return inspect.ismodule(np)
+    return issubclass(type(np), ModuleType)
 
 
 pd = maybe_import('pandas', 'conda')
@@ -212,7 +213,7 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return inspect.ismodule(pd)
+    return issubclass(type(pd), ModuleType)
 
 
 def numpy_plugin(v):
-- 
2.43.0


From 601d67621ddcbb6a6493b541712785e2b487faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 35/40] fix: the number of jobs of radius neighbors is not part
 of their ids

As for every other declared estimator: since 0.20 n_jobs is one of their parameters.
---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index 597596c..be5abe8 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -491,8 +491,8 @@ def _declare0dot19dot1():  # pragma: no cover
     _a(KNeighborsClassifier, 'knc', ('n_jobs',))
     _a(KNeighborsRegressor, 'knr', ('n_jobs',))
     _a(LocalOutlierFactor, 'lof', ('n_jobs',))
-    _a(RadiusNeighborsClassifier, 'rnc')
-    _a(RadiusNeighborsRegressor, 'rnr')
+    _a(RadiusNeighborsClassifier, 'rnc', ('n_jobs',))
+    _a(RadiusNeighborsRegressor, 'rnr', ('n_jobs',))
     _a(NearestCentroid, 'nc')
     _a(NearestNeighbors, None, ('n_jobs',))
 
-- 
2.43.0


From 7723c2c802764e9971ce3f68cdc60f157c58aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 36/40] fix: unsupported sklearn versions use the declarations
 of the immediately older supported one

The immediately newer one was used, whose imports the older sklearn does not satisfy.
---
 whatami/wrappers/what_sklearn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index be5abe8..eb727d5 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -572,10 +572,11 @@ def _declare_id_nonid_attributes():
     ))
 
     # Choose a version, default to the immediately older explicitly supported
-    version = declarator = None
-    for version, declarator in supported_versions:
-        if version >= sklearn_version:
+    version, declarator = supported_versions[0]
+    for supported, supported_declarator in supported_versions:
+        if supported > sklearn_version:
             break
+        version, declarator = supported, supported_declarator
 
     # Warn if the version is not explicitly supported
     # We might want to allow being loose / share declarations between versions
-- 
2.43.0


From 55413c8c760f0f85ad7c8c097a518e4066dbdfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:08 +0000
Subject: [PATCH 37/40] fix: hash sets and dictionaries the same whatever the
 order of partially ordered elements

sorted() does not put in a definite order what has no total order (frozensets, nan),
so the hashes of equal sets or dictionaries holding them depended on how they were filled.
---
 whatami/minijoblib/hashing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 9f2cad0..58b8520 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -23,6 +23,13 @@ else:
     Pickler = pickle.Pickler
 
 
+def _ensure_total_order(sorted_elements):
+    """ Raises TypeError if the order of some elements depends on how they came (frozensets, nan...) """
+    for previous, current in zip(sorted_elements, sorted_elements[1:]):
+        if not previous < current:
+            raise TypeError('elements without a total order')
+
+
 class _ConsistentSet(object):
     """ Class used to ensure the hash of Sets is preserved
         whatever the order of its items.
@@ -35,6 +42,7 @@ class _ConsistentSet(object):
             # This fails on python 3 when elements are unorderable
             # but we keep it in a try as it's faster.
             self._sequence = sorted(set_sequence)
+            _ensure_total_order(self._sequence)
         except TypeError:
             # If elements are unorderable, sorting them using their hash.
             # This is slower but works in any case.
@@ -144,7 +152,9 @@ class Hasher(Pickler):
             # consistent and orderable.
             # This fails on python 3 when keys are unorderable
             # but we keep it in a try as it's faster.
-            Pickler._batch_setitems(self, iter(sorted(items)))
+            sorted_items = sorted(items)
+            _ensure_total_order([k for k, _ in sorted_items])
+            Pickler._batch_setitems(self, iter(sorted_items))
         except TypeError:
             # If keys are unorderable, sorting them using their hash. This is
             # slower but works in any case.
-- 
2.43.0


From f05659ac8de79719db5dcc53c7831b94dce05c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:44 +0000
Subject: [PATCH 38/40] fix: a recorder never replaces a record added by a
 postprocessor meanwhile

Postprocessors get the recorder and can add records to it; if one of them added
an id that was already checked in the same call, its record was replaced when
the call commited.
---
 whatami/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/registry.py b/whatami/registry.py
index 9811300..068588e 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -657,6 +657,10 @@ class Recorder(with_metaclass(_RecorderMeta)):
                 record = function(an_id, record, self)
             # Add record to registry
             records[an_id] = record
+        # Postprocessors might have also added records to this recorder
+        for an_id in records:
+            if an_id in self._registry:
+                raise Exception('"%s" is already in the registry' % an_id)
         # All correct, commit
         self._registry.update(records)
         return records
-- 
2.43.0


From e4a13a59e5234ecbfdf1c086c46f95869b21c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:15 +0000
Subject: [PATCH 39/40] fix: whatareyou keeps what is in frozensets and in
 subclasses of set and frozenset

As it already does with sets and with subclasses of list, tuple and dict. Before, all of them shared one id,
whatever they held.
---
 whatami/what.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index b4de52e..5138fa3 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -360,6 +360,8 @@ def whatareyou(obj,
             cd['seq'] = tuple(obj)
         elif isinstance(obj, list):
             cd['seq'] = list(obj)
+        elif isinstance(obj, (set, frozenset)):
+            cd['seq'] = set(obj)
     return What(name=name if name_override is None else name_override,
                 conf=trim_dict(cd,
                                exclude_prefix=exclude_prefix,
-- 
2.43.0


From da94fbb872336f4087c223aafe907852ff7e7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:43 +0000
Subject: [PATCH 40/40] fix: slots that are not set do not stop the inference
 of the configuration

As it already happens with attributes that are not set in objects without slots. Before, whatareyou, and so what()
and id(), raised AttributeError for objects where one of the slots had not been (or was not anymore) set.
---
 whatami/misc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index dbd76ce..af855d7 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -399,8 +399,14 @@ def _slotsdict(obj):
     {'prop': 3}
     """
     descriptors = inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
-    return {dname: value.__get__(obj) for dname, value in descriptors if
-            '__weakref__' != dname if inspect.ismemberdescriptor(value)}
+    slots = {}
+    for dname, value in descriptors:
+        if '__weakref__' != dname and inspect.ismemberdescriptor(value):
+            try:
+                slots[dname] = value.__get__(obj)
+            except AttributeError:
+                pass  # declared, but not set
+    return slots
 
 
 def _propsdict(obj):
-- 
2.43.0

