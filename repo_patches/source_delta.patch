From e571b0e9830eb1ba643fa928ae3d63fc965bbe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 01/13] fix: match mixed patterns whose literal part spans
 several character spaces

A clustered pattern such as /[0-9a-z]{6}[\.]mp4 did not match the URLs it was
made from: MixedView was registered with MultiPatternViewMatcher, which keys
'mp' and '4' separately while MixedView keys the URL part as one.
---
 src/os_urlpattern/pattern_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 7c57c06..f851c9b 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -156,7 +156,7 @@ class FuzzyPatternViewMatcher(ViewMatcher):
 VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
-    (MixedView, MultiPatternViewMatcher),
+    (MixedView, MixedPatternViewMatcher),
     (LastDotSplitFuzzyView, MultiPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
-- 
2.43.0


From 5bb026361371520b130fc99326ce0fa65b2a05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 02/13] fix: parse the [\\] unit of a pattern

The bracket closing an escaped backslash was taken as escaped, so patterns made
from URLs that contain a backslash were rejected as invalid.
---
 src/os_urlpattern/parse_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 56a46e5..bf9ba21 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -655,7 +655,9 @@ def parse_pattern_string(pattern_string):
                 if idx < 0:
                     raise InvalidPatternException(
                         "Missing '%s'" % Symbols.BRACKETS_R)
-                elif pattern_string[idx - 1] == Symbols.BACKSLASH:
+                head = pattern_string[idx_s:idx]
+                escapes = len(head) - len(head.rstrip(Symbols.BACKSLASH))
+                if escapes % 2 == 1:  # the bracket itself is escaped
                     continue
                 break
             if idx + 1 < l:
-- 
2.43.0


From 5e0f3ec6b45203b0496a1638afb4c9f597bf313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 03/13] fix: literal length of a piece that contains a
 backslash

[\\] was counted as two characters, so length patterns of such pieces did not
match the URLs they were made from.
---
 src/os_urlpattern/parse_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index bf9ba21..523e9ef 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -451,11 +451,10 @@ class ParsedPiece(object):
             while idx < length_base:
                 c = piece[idx]
                 if c == Symbols.BRACKETS_L or c == Symbols.BRACKETS_R:
-                    if idx == 0 or piece[idx - 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
                 elif c == Symbols.BACKSLASH:
-                    if piece[idx + 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
+                    idx += 1  # the escaped char is literal
                 elif c == Symbols.BRACES_L:
                     if piece[idx - 1] == Symbols.BRACKETS_R:
                         e = piece.index(Symbols.BRACES_R, idx)
-- 
2.43.0


From 26682547925db16ae5e54301d5164d1d60270f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 04/13] fix: reject query keys with characters outside of any
 character space

Such keys were normalized to [None], which merged unrelated URLs and produced
patterns matching none of them.
---
 src/os_urlpattern/parse_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 523e9ef..fb7c1c0 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -100,6 +100,9 @@ def normalize(raw_string, reserved_chars=None):
         reserved_chars ([type], optional): Defaults to None. Reserved chars
             which are not to be normalized.
 
+    Raises:
+        InvalidCharException: The char is not in any character space.
+
     Returns:
         str: The normalized string.
 
@@ -114,6 +117,8 @@ def normalize(raw_string, reserved_chars=None):
     frag = StringIO()
     last_c = None
     for c in raw_string:
+        if c not in CHAR_RULE_DICT:
+            raise InvalidCharException("Invalid char %r" % c)
         if c in ASCII_DIGIT_SET:
             if last_c and last_c not in ASCII_DIGIT_SET:
                 frag.seek(0)
-- 
2.43.0


From 41ac90b367e65cca6b187b6a719939e501f47753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 05/13] fix: pattern-make -c with Python 3.12, which has no
 ConfigParser.readfp

---
 src/os_urlpattern/cmdline.py | 4 ++--
 src/os_urlpattern/compat.py  | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index cad3e69..22a240a 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -17,7 +17,7 @@ from collections import Counter
 from itertools import chain
 
 from . import __version__
-from .compat import binary_stdin, binary_stdout
+from .compat import binary_stdin, binary_stdout, read_config_file
 from .config import get_default_config
 from .definition import DEFAULT_ENCODING
 from .exceptions import (InvalidCharException, InvalidPatternException,
@@ -91,7 +91,7 @@ class MakePatternCommand(Command):
     def process_args(self, args):
         super(MakePatternCommand, self).process_args(args)
         if args.config:
-            self._config.readfp(args.config[0])
+            read_config_file(self._config, args.config[0])
 
     def add_argument(self, parser):
         super(MakePatternCommand, self).add_argument(parser)
diff --git a/src/os_urlpattern/compat.py b/src/os_urlpattern/compat.py
index 7954151..4079d14 100644
--- a/src/os_urlpattern/compat.py
+++ b/src/os_urlpattern/compat.py
@@ -14,6 +14,7 @@ if _PY3:
     itervalues = operator.methodcaller("values")
     from urllib.parse import urlparse, ParseResult
     from configparser import ConfigParser
+    read_config_file = ConfigParser.read_file
     binary_stdin = sys.stdin.buffer
     binary_stdout = sys.stdout.buffer
 else:
@@ -25,5 +26,6 @@ else:
     itervalues = operator.methodcaller("itervalues")
     from urlparse import urlparse, ParseResult
     from ConfigParser import ConfigParser
+    read_config_file = ConfigParser.readfp
     binary_stdin = sys.stdin
     binary_stdout = sys.stdout
-- 
2.43.0


From 4a4d46b3e5da410a0aa1f4001bed41da0cc92229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 06/13] fix: keep every length pattern of the same length

Loading an equivalent spelling ([0-9a-z]{5} and [a-z0-9]{5}) replaced the
pattern loaded before, which was then never reported.
---
 src/os_urlpattern/pattern_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index f851c9b..55ca573 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -92,7 +92,7 @@ class LengthPatternViewMatcher(ViewMatcher):
 
     def add_match_node(self, match_node):
         length = match_node.pattern.pattern_units[0].num
-        self._matchers[length] = [match_node]
+        self._matchers.setdefault(length, []).append(match_node)
 
     def match(self, parsed_piece):
         return [] if parsed_piece.piece_length not in self._matchers \
-- 
2.43.0


From de19b14c9316bf8563bebfc7b29c5fe178921d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 07/13] fix: group clustered paths by their pattern, not by its
 hash

Two pattern paths with the same hash were merged into one cluster.
---
 src/os_urlpattern/pattern_cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_cluster.py b/src/os_urlpattern/pattern_cluster.py
index 4fb9584..8732940 100644
--- a/src/os_urlpattern/pattern_cluster.py
+++ b/src/os_urlpattern/pattern_cluster.py
@@ -659,7 +659,7 @@ def split_by_pattern(root):
     """
     tree_roots = {}
     for nodes in dump_tree(root):
-        pid = hash("/".join([str(p.pattern) for p in nodes]))
+        pid = "/".join([str(p.pattern) for p in nodes])
         if pid not in tree_roots:
             tree_roots[pid] = PiecePatternNode((EMPTY_PARSED_PIECE, None))
         sub_root = tree_roots[pid]
-- 
2.43.0


From 33fde33fe067fabfee808cbf2a17be4300ed6fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 08/13] fix: parse_url of an empty URL and of '#' raised
 IndexError

---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index fb7c1c0..f72baff 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -171,11 +171,11 @@ def parse_url(url):
     """
     scheme, netloc, path, params, query, fragment = urlparse(url)
     if not fragment:
-        if url[-1] != Symbols.NUMBER:
+        if not url.endswith(Symbols.NUMBER):
             fragment = None
-            if not query and url[-1] != Symbols.QUESTION:
+            if not query and not url.endswith(Symbols.QUESTION):
                 query = None
-        elif not query and url[-2] != Symbols.QUESTION:
+        elif not query and not url[:-1].endswith(Symbols.QUESTION):
             query = None
     elif not query:
         if url[len(url) - len(fragment) - 2] != Symbols.QUESTION:
-- 
2.43.0


From 28ef1c614cc78f881d4208273b4ebff002eaf7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 09/13] fix: match last-path patterns of every
 <name>.<extension> cluster

/[0-9\-a-z]+[\.]mp4 and /[0-9a-z]{2}[\.][0-9a-z]{3} did not match the URLs
they were made from: the view deduced from the pattern differed from the one
the cluster was made with.
---
 src/os_urlpattern/parsed_piece_view.py | 27 +++++++++++++++++++++-----
 src/os_urlpattern/pattern_matcher.py   |  2 +-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/os_urlpattern/parsed_piece_view.py b/src/os_urlpattern/parsed_piece_view.py
index 00bcb75..080eefe 100644
--- a/src/os_urlpattern/parsed_piece_view.py
+++ b/src/os_urlpattern/parsed_piece_view.py
@@ -2,7 +2,7 @@
 """
 from __future__ import unicode_literals
 
-from .definition import DIGIT_AND_ASCII_RULE_SET, BasePatternRule
+from .definition import DIGIT_AND_ASCII_RULE_SET, MIXED_RULE_SET, BasePatternRule
 from .parse_utils import ParsedPiece, fuzzy_join, mix
 from .utils import pick
 
@@ -169,11 +169,28 @@ def view_cls_from_pattern(pattern, is_last_path=False):
                 else:
                     view_cls = MultiView
         if is_last_path \
-                and len(pattern_units) == 3 \
                 and view_cls != PieceView \
-                and len(pattern_units[1].rules) == 1 \
-                and pick(pattern_units[1].rules) == BasePatternRule.DOT \
-                and not (set(pattern_units[-1].rules) - DIGIT_AND_ASCII_RULE_SET):
+                and _is_last_dot_split(pattern_units):
             view_cls = LastDotSplitFuzzyView
 
     return view_cls
+
+
+def _is_last_dot_split(pattern_units):
+    """Whether the units are <name><dot><extension> of LastDotSplitFuzzyView.
+
+    Other views split the name and the extension by character space. They
+    are preferred unless only LastDotSplitFuzzyView can express the name, or
+    the extension is a literal.
+    """
+    name, tail = pattern_units[0], pattern_units[2:]
+    if not 1 <= len(tail) <= 2 \
+            or len(pattern_units[1].rules) != 1 \
+            or pick(pattern_units[1].rules) != BasePatternRule.DOT \
+            or any(set(u.rules) - DIGIT_AND_ASCII_RULE_SET for u in tail):
+        return False
+    fuzzy_name = len(name.rules) > 1 and set(name.rules) - MIXED_RULE_SET
+    literal_tail = all(u.is_literal() for u in tail)
+    if len(tail) == 1:
+        return bool(fuzzy_name or literal_tail)
+    return bool(fuzzy_name and literal_tail)
diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 55ca573..a30231e 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -157,7 +157,7 @@ VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
     (MixedView, MixedPatternViewMatcher),
-    (LastDotSplitFuzzyView, MultiPatternViewMatcher),
+    (LastDotSplitFuzzyView, MixedPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
 ]
-- 
2.43.0


From 467e8f7ef49f01ffe279d8494a01afdb29626aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:13 +0000
Subject: [PATCH 10/13] fix: reject pattern units without any character space
 ([] and []+)

---
 src/os_urlpattern/parse_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index f72baff..f10ee1e 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -751,6 +751,8 @@ def parse_pattern_unit_string(pattern_unit_string):
                 raise InvalidPatternException("Invalid rule %r" % rule)
             rules.add(rule)
             idx += n
+    if not rules:
+        raise InvalidPatternException('Missing rule')
     if (num > 0 and len(rules) > num) or num == 0:
         raise InvalidPatternException('Insufficient number')
     return rules, num
-- 
2.43.0


From fa976bc412b5101b9da171565eb85b2db524b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:57 +0000
Subject: [PATCH 11/13] fix: reject unit counts with digits other than 0-9

---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index f10ee1e..397ed1f 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -8,7 +8,7 @@ from collections import namedtuple
 
 from .compat import ParseResult, StringIO, urlparse
 from .definition import (ASCII_DIGIT_SET, BLANK_TUPLE, CHAR_RULE_DICT,
-                         DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET,
+                         DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET, DIGIT_SET,
                          EMPTY_TUPLE, MIXED_RULE_SET,
                          QUERY_PART_RESERVED_CHARS, RULE_SET, SIGN_RULE_SET,
                          BasePatternRule, Symbols)
@@ -672,7 +672,7 @@ def parse_pattern_string(pattern_string):
                         raise InvalidPatternException(
                             "Missing '%s'" % Symbols.BRACES_R)
                     num_str = pattern_string[old_idx:idx]
-                    if not num_str.isdigit():
+                    if not num_str or not DIGIT_SET.issuperset(num_str):
                         raise InvalidPatternException(
                             "Invalid num %r" % num_str)
 
@@ -728,7 +728,7 @@ def parse_pattern_unit_string(pattern_unit_string):
         elif pattern_unit_string[-1] == Symbols.BRACES_R:
             t = pattern_unit_string.rfind(Symbols.BRACES_L)
             num_str = pattern_unit_string[t + 1:-1]
-            if not num_str.isdigit():
+            if not num_str or not DIGIT_SET.issuperset(num_str):
                 raise InvalidPatternException("Invalid num %r" % num_str)
             num = int(num_str)
         elif pattern_unit_string[-1] == Symbols.PLUS:
-- 
2.43.0


From eb8e59fe0d6a9fe968524fd834292e7bb6597907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:11 +0000
Subject: [PATCH 12/13] fix: comparing a pattern with another kind of object
 raised AttributeError

---
 src/os_urlpattern/pattern.py         | 2 ++
 src/os_urlpattern/pattern_matcher.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/os_urlpattern/pattern.py b/src/os_urlpattern/pattern.py
index 060fbc6..cf6906f 100644
--- a/src/os_urlpattern/pattern.py
+++ b/src/os_urlpattern/pattern.py
@@ -83,6 +83,8 @@ class Pattern(object):
         return hash(self.pattern_string)
 
     def __eq__(self, o):
+        if not isinstance(o, Pattern):
+            return False
         return self.pattern_string == o.pattern_string
 
     def match(self, piece):
diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index a30231e..df4d36a 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -39,6 +39,8 @@ class MatchPattern(Pattern):
         return self._cmp_key
 
     def __ne__(self, other):
+        if not isinstance(other, Pattern):
+            return True
         return self.pattern_string != other.pattern_string
 
     def __lt__(self, other):
-- 
2.43.0


From ba107ddc4279268921ffce78b547658385491eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:11 +0000
Subject: [PATCH 13/13] fix: reject URLs with tab, CR or LF, which urlparse
 drops silently

---
 src/os_urlpattern/parse_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 397ed1f..8ea1b33 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -166,9 +166,17 @@ def parse_url(url):
     Args:
         url (str): The URL to be parsed.
 
+    Raises:
+        InvalidCharException: The URL contains a character which the
+            built-in urlparse method drops silently.
+
     Returns:
         ParseResult: A 6-tuple, (scheme, netloc, path, params, query, fragment).
     """
+    for c in '\t\r\n':
+        if c in url:
+            raise InvalidCharException("Invalid char %r" % c)
+
     scheme, netloc, path, params, query, fragment = urlparse(url)
     if not fragment:
         if not url.endswith(Symbols.NUMBER):
-- 
2.43.0

