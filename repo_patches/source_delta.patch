From 5adc8c697c5e894774cbfad977f0ef341b496980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 01/91] fix: StringView: indices, prefix/suffix tests and
 splitting agree with str on views

---
 DHParser/stringview.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index bf7ac04..2ab355a 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -121,6 +121,7 @@ class StringView:  # collections.abc.Sized
         _len = _end - _begin  # type: int
         if _len < 0:
             _len = 0
+            _end = _begin
         self._begin = _begin   # type: int
         self._end = _end       # type: int
         self._len = _len       # type: int
@@ -195,7 +196,9 @@ class StringView:  # collections.abc.Sized
             return StringView(self._text, _begin + start, _begin + stop)
         except AttributeError:
             _index = index
-            if _index >= self._len:
+            if _index < 0:
+                _index += self._len
+            if _index < 0 or _index >= self._len:
                 raise IndexError("StringView index %i out of range 0 - %i" % (_index, self._len))
             _begin = self._begin
             return StringView(self._text, self._begin + _index, self._begin + _index + 1)
@@ -270,9 +273,8 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
-        return self._text.startswith(prefix, start, end)
+        _start, _end = fast_real_indices(start, end, self._len)
+        return self._text.startswith(prefix, self._begin + _start, self._begin + _end)
 
     def endswith(self,
                  suffix: str,
@@ -282,9 +284,8 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
-        return self._text.endswith(suffix, start, end)
+        _start, _end = fast_real_indices(start, end, self._len)
+        return self._text.endswith(suffix, self._begin + _start, self._begin + _end)
 
     def match(self, regex, flags: cython.int = 0):
         """Executes `regex.match` on the StringView object and returns the
@@ -345,13 +346,13 @@ class StringView:  # collections.abc.Sized
         return self if begin == 0 and end == self._len else self[begin:end]
 
     @cython.locals(begin=cython.int)
-    def lstrip(self, chars=' \n\t') -> StringView:
+    def lstrip(self, chars=' \n\r\t') -> StringView:
         """Returns a copy of `self` with leading whitespace removed."""
         begin = first_char(self._text, self._begin, self._end, chars) - self._begin
         return self if begin == 0 else self[begin:]
 
     @cython.locals(end=cython.int)
-    def rstrip(self, chars=' \n\t') -> StringView:
+    def rstrip(self, chars=' \n\r\t') -> StringView:
         """Returns a copy of `self` with trailing whitespace removed."""
         end = last_char(self._text, self._begin, self._end, chars) - self._begin
         return self if end == self._len else self[:end]
@@ -363,8 +364,8 @@ class StringView:  # collections.abc.Sized
         whitespace string is a separator and empty strings are
         removed from the result.
         """
-        if self._fullstring:
-            return self._fullstring.split(sep)
+        if self._fullstring or sep is None:
+            return str(self).split(sep)
         else:
             pieces = []   # type: List[Union['StringView', str]]
             length = len(sep)
-- 
2.43.0


From f39d1b5e81f88ce1cfd4fb386d10e4109aab2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 02/91] fix: text_pos is the inverse of line_col (lines and
 columns counted from 1, -1 if out of range)

---
 DHParser/toolkit.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 1b81546..4718485 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1380,25 +1380,20 @@ def line_col(lbreaks: List[int], pos: cython.int) -> Tuple[cython.int, cython.in
 
 
 @cython.returns(cython.int)
-@cython.locals(line=cython.int, column=cython.int, i=cython.int)
+@cython.locals(line=cython.int, column=cython.int)
 def text_pos(text: Union[StringView, str],
              line: int, column: int,
              lbreaks: List[int] = []) -> int:
     """
     Returns the text-position for a given line and column or -1 if the line
-    and column exceed the size of the text.
+    and column exceed the size of the text. This is the inverse of
+    :py:func:`line_col`, i.e. lines and columns are counted from 1 onward.
     """
-    if lbreaks:
-        try:
-            return lbreaks[line] + column - 1
-        except IndexError:
-            return -1
-    else:
-        i = 0
-        while line > 0 and i >= 0:
-            i = text.find('\n', i + 1)
-            line -= 1
-        return i + column - 1
+    if not lbreaks:
+        lbreaks = linebreaks(text)
+    if 1 <= line < len(lbreaks) and 1 <= column <= lbreaks[line] - lbreaks[line - 1]:
+        return lbreaks[line - 1] + column
+    return -1
 
 
 #######################################################################
-- 
2.43.0


From 868f3d3dbba03106fee328bba997e83811a230c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 03/91] fix: TextBuffer.snapshot honours the eol argument and
 never alters the buffer's text

---
 DHParser/stringview.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 2ab355a..ba8371f 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -416,13 +416,11 @@ class TextBuffer:
     def __str__(self) -> str:
         if self._text:
             return str(self._text)
-        return str(self.snapshot('\n'))
+        self._text = self.snapshot('\n')
+        return self._text
 
     def __len__(self) -> int:
-        if self._text:
-            return len(self._text)
-        else:
-            return sum(len(line) for line in self._buffer) + len(self._buffer) - 1
+        return len(str(self))
 
     @property
     def buffer(self) -> List[Union[str, StringView]]:
@@ -484,7 +482,4 @@ class TextBuffer:
     def snapshot(self, eol: str = '\n') -> Union[str, StringView]:
         """Returns the current state of the entire text, using the given
         end of line marker (``\\n`` or ``\\r\\n``)"""
-        if self._text:
-            return self._text
-        self._text = eol.join(str(line) for line in self._buffer)
-        return self._text
+        return eol.join(str(line) for line in self.buffer)
-- 
2.43.0


From a96670a8d81488b49eb25ef4af7895c5b73486b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 04/91] fix: Counted returns the original location if it does
 not match

---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0753432..a62425c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -3900,14 +3900,15 @@ class Counted(UnaryParser):
         copy_combined_parser_attrs(self, duplicate)
         return duplicate
 
-    @cython.locals(location_=cython.int)
+    @cython.locals(start=cython.int, location_=cython.int)
     def _parse(self, location: cython.int):
         results: Tuple[Node, ...] = ()
+        start = location
         location_ = location
         for _ in range(self.repetitions[0]):
             node, location = self.parser(location)
             if node is None:
-                return None, location_
+                return None, start
             if node._result or node.name[0] != ':':
                 results += (node,)
             if location_ >= location:
-- 
2.43.0


From 58b16f2d4ff0b9239685b75bdf5794d993255c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 05/91] fix: Interleave tells apart several occurrences of the
 same parser

---
 DHParser/parse.pxd |  1 -
 DHParser/parse.py  | 16 ++++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/DHParser/parse.pxd b/DHParser/parse.pxd
index 7484e30..d537b8f 100644
--- a/DHParser/parse.pxd
+++ b/DHParser/parse.pxd
@@ -151,7 +151,6 @@ cdef class TextAlternative(Alternative):
 cdef class Interleave(ErrorCatchingNary):
     cdef public object repetitions
     cdef public object non_mandatory
-    cdef public object parsers_set
 
 cdef class FlowParser(UnaryParser):
     pass
diff --git a/DHParser/parse.py b/DHParser/parse.py
index a62425c..455b884 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4540,8 +4540,8 @@ class Interleave(ErrorCatchingNary):
         elif len(parsers) != len(repetitions):
             raise ValueError("Number of repetition-tuples unequal number of sub-parsers!")
         self.repetitions = list(repetitions)  # type: List[Tuple[int, int]]
-        self.non_mandatory = frozenset(parsers[i] for i in range(min(mandatory, len(parsers))))
-        self.parsers_set = frozenset(self.parsers)
+        # elements are identified by their index, because the same parser may occur repeatedly
+        self.non_mandatory = frozenset(range(min(mandatory, len(parsers))))
 
     def __deepcopy__(self, memo):
         parsers = copy.deepcopy(self.parsers, memo)
@@ -4555,12 +4555,12 @@ class Interleave(ErrorCatchingNary):
         results = ()  # type: Tuple[Node, ...]
         location_ = location  # type: int
         counter = [0] * len(self.parsers)
-        consumed = set()  # type: MutableSet[Parser]
+        consumed = set()  # type: MutableSet[int]
         error = None  # type: Optional[Error]
         while True:
             # there is an order of testing, but no promise about the order of testing, here!
             for i, parser in enumerate(self.parsers):
-                if parser not in consumed:
+                if i not in consumed:
                     node, location__ = parser(location_)
                     if node is not None:
                         if node._result or not node.name[0] == ':':  # node.anonymous:  # drop anonymous empty nodes
@@ -4568,14 +4568,14 @@ class Interleave(ErrorCatchingNary):
                             # location_ = location__
                         counter[i] += 1
                         if counter[i] >= self.repetitions[i][1]:
-                            consumed.add(parser)
+                            consumed.add(i)
                         break
             else:
-                for i, parser in enumerate(self.parsers):
+                for i in range(len(self.parsers)):
                     if counter[i] >= self.repetitions[i][0]:
-                        consumed.add(parser)
+                        consumed.add(i)
                 if self.non_mandatory <= consumed:
-                    if len(consumed) == len(self.parsers_set):  # faster than: comsumed == self.parsers_set
+                    if len(consumed) == len(self.parsers):
                         break
                 else:
                     return None, location
-- 
2.43.0


From cc6d8e93e5bfdffac918f69b4fcfa0282d4fb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 06/91] fix: three-character byte order marks are stripped from
 the document as intended

---
 DHParser/parse.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 455b884..9f77880 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2006,7 +2006,6 @@ class Grammar:
             self.text__ = document[3:]
         else:
             self.text__ = document
-        self.text__ = document[1:] if document[0:1] in ('\ufeff', '\uffef') else document
         self.document__ = StringView(self.text__)
         self.document_length__ = len(self.document__)
         self._document_lbreaks__ = linebreaks(self.text__) if self.history_tracking__ else []
-- 
2.43.0


From cec13fd0a794d55d2e10907fbec27ac67d3ef9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 07/91] fix: the result of a successful retry after a parser
 drop-out is not lost

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 9f77880..fe82fde 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2165,6 +2165,8 @@ class Grammar:
                         f'Parser "{parser.pname}" stopped before end, '
                         f'because of trailing whitespace.',
                         location, PARSER_STOPPED_BEFORE_END_WARNING))
+                if stitches and result is not None:
+                    stitches.append(result)  # the last retry has been successful
                 location = L
         if stitches:
             if location < L:
-- 
2.43.0


From d0c27bef20e2921768bdbb31549d1e4da1570b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 08/91] fix: whether a capture can be empty is decided on an
 empty document

---
 DHParser/parse.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index fe82fde..ce07b22 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4846,7 +4846,19 @@ class Capture(ContextSensitive):
     @property
     def can_capture_zero_length(self) -> bool:
         if self._can_capture_zero_length is None:
-            self._can_capture_zero_length = self.parser._parse(0)[0] is not None
+            # must be tried on an empty document, not on the document just parsed
+            grammar = self._grammar
+            saved = grammar.text__, grammar.document__, grammar._reversed__, \
+                grammar.document_length__
+            grammar.text__, grammar.document__, grammar._reversed__, \
+                grammar.document_length__ = '', EMPTY_STRING_VIEW, EMPTY_STRING_VIEW, 0
+            self.parser.apply(reset_parser)  # clear memoized results of the other document
+            try:
+                self._can_capture_zero_length = self.parser._parse(0)[0] is not None
+            finally:
+                self.parser.apply(reset_parser)
+                grammar.text__, grammar.document__, grammar._reversed__, \
+                    grammar.document_length__ = saved
         return cast(bool, self._can_capture_zero_length)
 
     def _rollback(self):
-- 
2.43.0


From a503b6d302ce83ffa04f627cba5574c77eb87c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 09/91] fix: variable changes of trailing lookaheads and failed
 parsers are rolled back at the end of parsing

---
 DHParser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index ce07b22..57a45e0 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2039,6 +2039,9 @@ class Grammar:
         while location < L and len(stitches) < max_parser_dropouts:
             try:
                 result, location = parser(location)
+                if location <= self.last_rb__loc__:
+                    # undo pending changes of variables by failed parsers or trailing lookaheads
+                    self.rollback_to__(location)
             except ParserError as pe:
                 result, location = pe.node, L
                 for k in self.variables__:  del self.variables__[k]
-- 
2.43.0


From 206092c726ac7e262e95db7deb1463d640c02369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 10/91] fix: cancelled or aborted parsing clears the variables
 without raising an error

---
 DHParser/parse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 57a45e0..f969b95 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2021,6 +2021,12 @@ class Grammar:
                 result, _ = parser(0)
             except ParserError as pe:
                 result = pe.node
+                self.variables__.clear()
+            except CancelError as ce:
+                result = Node(EMPTY_NODE.name, '').with_pos(0)
+                self.tree__.new_error(
+                    result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
+                self.variables__.clear()
             if result is None:
                 result = Node(ZOMBIE_TAG, '').with_pos(0)
                 if lookahead_failure_only(parser):
@@ -2044,13 +2050,13 @@ class Grammar:
                     self.rollback_to__(location)
             except ParserError as pe:
                 result, location = pe.node, L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
                 self.tree__.new_error(
                     result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
                 location = L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
 
-- 
2.43.0


From 92124f83c0c74f54f0c6a4bb7856af7f0310de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 11/91] fix: grammar objects with a recursive root parser can
 be copied

---
 DHParser/parse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index f969b95..45fc889 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1776,9 +1776,11 @@ class Grammar:
         # during testing and development this does not need to be the case.)
         if root:
             self.root_parser__ = copy.deepcopy(root)
-            if not self.root_parser__.pname:
-                self.root_parser__.name("root")
-            self.root_parser__.disposable = False
+            named_root = cast(Forward, self.root_parser__).parser \
+                if isinstance(self.root_parser__, Forward) else self.root_parser__
+            if not named_root.pname:
+                named_root.name("root")
+            named_root.disposable = False
             self.static_analysis_pending__ = [True]  # type: List[bool]
             self.static_analysis_errors__ = []       # type: List[AnalysisError]
         else:
-- 
2.43.0


From 8140543ec7c67319d16004cdefac80c209d169a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 12/91] fix: the error code for left-over captures does not
 depend on memory addresses

---
 DHParser/parse.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 45fc889..e026c55 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1165,21 +1165,27 @@ def is_parser_placeholder(parser: Optional[Parser]) -> bool:
 # functions for analysing the parser tree/graph ###
 
 
-def has_non_autocaptured_symbols(ptrail: ParserTrail) -> Optional[bool]:
-    """Returns True, if the parser-path contains a Capture-Parser that is not
+def has_non_autocaptured_symbols(parser: Parser) -> bool:
+    """Returns True, if the parser contains a Capture-Parser that is not
     shielded by a Retrieve-Parser. This is the case for captured symbols
     that are not "auto-captured" by a Retrieve-Parser.
     """
-    for parser in ptrail:
-        if parser.ptype == ":Retrieve":
-            break
-        elif parser.ptype == ":Capture":
+    # must not depend on the (arbitrary) order in which the parsers are visited
+    visited = set()  # type: MutableSet[Parser]
+    stack = [parser]  # type: List[Parser]
+    while stack:
+        parser = stack.pop()
+        if parser in visited or parser.ptype == ":Retrieve":
+            continue
+        visited.add(parser)
+        if parser.ptype == ":Capture":
             p = cast(UnaryParser, parser).parser
             while p.ptype in (":Synonym", ":Forward"):
                 p = cast(UnaryParser, p).parser
             if not isinstance(p, Retrieve):
                 return True
-    return None
+        stack.extend(parser.sub_parsers)
+    return False
 
 
 ########################################################################
-- 
2.43.0


From b4073e1a98bc4c7e9561f056365a7c3e516c2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 13/91] fix: grammar instances do not alter the resume- and
 skip-rules of their class

---
 DHParser/parse.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index e026c55..1709412 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1806,10 +1806,13 @@ class Grammar:
         self.unconnected_parsers__: MutableSet[Parser] = set()
         self.resume_parsers__: MutableSet[Parser] = set()
         resume_lists = []
-        if hasattr(self, 'resume_rules__'):
-            resume_lists.extend(self.resume_rules__.values())
-        if hasattr(self, 'skip_rules__'):
-            resume_lists.extend(self.skip_rules__.values())
+        for rules_attr in ('resume_rules__', 'skip_rules__'):
+            if hasattr(self, rules_attr):
+                # the rules will be connected with the parsers of this particular
+                # instance, therefore, the rules of the class must not be touched
+                rules = {symbol: list(l) for symbol, l in getattr(self, rules_attr).items()}
+                setattr(self, rules_attr, rules)
+                resume_lists.extend(rules.values())
         for l in resume_lists:
             for i in range(len(l)):
                 if isinstance(l[i], Parser):
@@ -2196,7 +2199,7 @@ class Grammar:
             error_msg = "Capture-stack not empty after end of parsing: " \
                 + ', '.join(f'{v} {len(l)} {"items" if len(l) > 1 else "item"}'
                             for v, l in self.variables__.items() if len(l) >= 1)
-            if parser.apply_to_trail(has_non_autocaptured_symbols):
+            if has_non_autocaptured_symbols(parser):
                 if all(cast(Capture, self[v]).can_capture_zero_length
                        for v, l in self.variables__.items() if len(l) >= 1):
                     error_code = CAPTURE_STACK_NOT_EMPTY_WARNING
-- 
2.43.0


From 5521e663a61216c01f93d72e981085b5ee8125a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 14/91] fix: cancel queries reach the compiler and the
 transformer of compile_source()

---
 DHParser/compile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index e298bc7..aa962c7 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -260,7 +260,8 @@ class Compiler:
         if self._dirty_flag:
             self.reset()
         self._dirty_flag = True
-        self.cancel_query = cancel_query
+        if cancel_query is not None:  # otherwise, keep a query set by compile_source() etc.
+            self.cancel_query = cancel_query
         self.tree = root if isinstance(root, RootNode) else RootNode(root)
         self.prepare(self.tree)
         try:
@@ -526,12 +527,12 @@ def compile_source(source: str,
 
         # AST-transformation
 
+        if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
         if is_error(syntax_tree.error_flag):
             # catch Python exception, because if an error has occurred
             # earlier, the syntax tree might not look like expected,
             # which could (fatally) break AST transformations.
             try:
-                if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
                 syntax_tree = transformer(syntax_tree)
             except Exception as e:
                 syntax_tree.new_error(syntax_tree,
-- 
2.43.0


From e079e4825eb34220bffc1102e28a8502b90ea738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 15/91] fix: skip- and resume-nodes carry the number of the
 rule that was applied

---
 DHParser/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 1709412..92a7ef9 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -418,8 +418,8 @@ def reentry_point(rest: StringView,
         return k + length if k >= 0 else upper_limit
 
     # find the closest match
-    nr = 0
-    for nr, rule in enumerate(rules, 1):
+    nr = 0  # number of the rule that yields the closest match
+    for i, rule in enumerate(rules, 1):
         comments = rest.finditer(comment_regex)
         if isinstance(rule, Parser):
             parser = cast(Parser, rule)
@@ -440,6 +440,7 @@ def reentry_point(rest: StringView,
             if _node:
                 pos = len(rest) - len(_text)
                 if pos < closest_match:
+                    nr = i
                     closest_match = pos
                     skip_node = _node
         else:
@@ -451,6 +452,7 @@ def reentry_point(rest: StringView,
                 search_func = rx_search
             pos = entry_point(search_func, rule)
             if pos < closest_match:
+                nr = i
                 skip_node = None
                 closest_match = pos
 
-- 
2.43.0


From f68f50b6ffda010d35d00ae204dbda49f8fb5375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 16/91] fix: the rest of the document is not lost if a
 mandatory violation reaches a recursive root parser

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 92a7ef9..857bc80 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2062,7 +2062,8 @@ class Grammar:
                     # undo pending changes of variables by failed parsers or trailing lookaheads
                     self.rollback_to__(location)
             except ParserError as pe:
-                result, location = pe.node, L
+                # the rest of the document must not get lost
+                result, location = pe.node, pe.location + pe.node_orig_len
                 self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
-- 
2.43.0


From 411d92c2a472ec9e3aeaa716486b1abfc465709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 17/91] fix: text skipped after a second violation ends up at
 its proper place in the tree

---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 857bc80..567aa03 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -687,8 +687,9 @@ class Parser:
             assert pe.node._children or (not pe.node.result)
             # apply reentry-rule or catch error at root-parser
             if i < 0:  i = 0
-            zombie = pe.node.pick_child(artifact)  # type: Optional[Node]
-            if zombie and not zombie.result:
+            # the skipped text belongs to the end of the node
+            zombie = pe.node._children[-1] if pe.node._children else None  # type: Optional[Node]
+            if zombie and artifact(zombie) and not zombie.result:
                 zombie.result = rest[:i]
                 zombie.name = skip_node.name
                 tail = tuple()  # type: ChildrenType
-- 
2.43.0


From ee38ba7d3f58337cdd38baa9e03453507765cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 18/91] fix: no infinite loop if a search string does not occur
 in the rest of the document

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 567aa03..cfc200a 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -411,7 +411,7 @@ def reentry_point(rest: StringView,
         while a < b <= k + length:
             a, b = next_comment()
         # find next as long as start or end point of resume regex are inside a comment
-        while (a < k < b) or (a < k + length < b):
+        while k >= 0 and ((a < k < b) or (a < k + length < b)):
             k, length = search_func(search_rule, b)
             while a < b <= k:
                 a, b = next_comment()
-- 
2.43.0


From f4b2c5ecdd83480e05e45de9c0727b2ca30af726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 19/91] fix: Interleave still matches optional elements after
 skipping

---
 DHParser/parse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index cfc200a..a40329e 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4596,11 +4596,11 @@ class Interleave(ErrorCatchingNary):
                             consumed.add(i)
                         break
             else:
-                for i in range(len(self.parsers)):
-                    if counter[i] >= self.repetitions[i][0]:
-                        consumed.add(i)
-                if self.non_mandatory <= consumed:
-                    if len(consumed) == len(self.parsers):
+                # parsers in satisfied but not in consumed may still match after skipping
+                satisfied = {i for i in range(len(self.parsers))
+                             if counter[i] >= self.repetitions[i][0]}
+                if self.non_mandatory <= satisfied:
+                    if len(satisfied) == len(self.parsers):
                         break
                 else:
                     return None, location
-- 
2.43.0


From 50c619f2610458390427a5bdb8064d17ca838274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 20/91] fix: violation nodes start where the parser started and
 survive the dropping of content

---
 DHParser/parse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index a40329e..defca5c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4308,6 +4308,14 @@ class ErrorCatchingNary(NaryParser):
             return reloc, zombie
         return -1, Node(ZOMBIE_TAG, '')
 
+    def violation_node(self, node: Node, err_node: Node, location: cython.int) -> Node:
+        """Returns the node that is passed on with a ParserError. If the content
+        of ``node`` has been dropped, at least the error-node is kept."""
+        if node is EMPTY_NODE:
+            node = Node(self.node_name, err_node)
+        # the position has already been set if node is the only result that has been left
+        return node.with_pos(location) if node._pos < 0 else node
+
     def mandatory_violation(self,
                             location: cython.int,
                             failed_on_lookahead: bool,
@@ -4497,7 +4505,7 @@ class Series(ErrorCatchingNary):
         ret_node = self._return_values(tuple(results))  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, ret_node.with_pos(location_),
+            raise ParserError(self, self.violation_node(ret_node, results[-1], location),
                               location_ - location,
                               location, error, first_throw=True)
         return ret_node, location_
@@ -4617,7 +4625,7 @@ class Interleave(ErrorCatchingNary):
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, nd.with_pos(location),
+            raise ParserError(self, self.violation_node(nd, results[-1], location),
                               location_ - location,
                               location, error, first_throw=True)
         return nd, location_
-- 
2.43.0


From 5c481709e22a21bd28b11e96bd1d7566503ac8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 21/91] fix: text before a lookahead violation at the end of
 the document is not lost

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index defca5c..86fb6fe 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -711,7 +711,8 @@ class Parser:
         elif grammar.tree__.errors[-1].code in \
                 (MANDATORY_CONTINUATION_AT_EOF, MANDATORY_CONTINUATION_AT_EOF_NON_ROOT):
             # try to create tree as faithful as possible
-            node = Node(self.node_name, pe.node).with_pos(location)
+            content = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node
+            node = Node(self.node_name, content).with_pos(location)
         else:
             # fall through but skip the gap
             result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node  # type: ResultType
-- 
2.43.0


From 62b9d65fd0f254553bf8dfe45f0547975d01eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 22/91] fix: path_str() raised an AssertionError for every path

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2f518a3..aa129c4 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3873,7 +3873,7 @@ def path_str(path: Path) -> str:
     """Returns the path as a pseudo filepath of tag-names."""
     tag_list = ['']
     for node in path:
-        assert not node.name.find('/'), 'path_str() not allowed for tag-names containing "/"!'
+        assert node.name.find('/') < 0, 'path_str() not allowed for tag-names containing "/"!'
         tag_list.append(node.name)
     if path[-1].children:
         tag_list.append('')
-- 
2.43.0


From 34d5049f7e308ba8ba3e6752f8fc471af77ebe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 23/91] fix: select_path() yielded paths that were emptied
 later and entered skipped siblings

---
 DHParser/nodetree.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index aa129c4..a1edab6 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4116,21 +4116,19 @@ def select_path_if(start_path: Path,
     path = start_path.copy()
     while path:
         if include_root:
-            yield from recursive(path)
-        else:
-            include_root = True
+            yield from recursive(path.copy())
         node = path.pop()
         edge, delta = (0, -1) if reverse else (-1, 1)
         while path and node is path[-1]._children[edge]:
             if match_func(path):
-                yield path
+                yield path.copy()
             node = path.pop()
         if path:
             parent = path[-1]
             i = parent.index(node)
             nearest_sibling = parent._children[i + delta]
             path.append(nearest_sibling)
-            # include_root = True
+            include_root = not skip_func(path)
 
 
 def select_path(start_path: Path,
-- 
2.43.0


From edbe90e2aca84afd70682c1c0ecb994d70011d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 24/91] fix: Node.locate() returned a leaf for negative
 locations

---
 DHParser/nodetree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index a1edab6..8331f3a 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1379,6 +1379,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         See also :py:class:`ContentMapping` for a more
         general approach to locating string positions within the tree.
         """
+        if location < 0:
+            return None
         end = 0
         for nd in self.select_if(lambda nd: not nd._children, include_root=True):
             end += nd.strlen()
@@ -1490,6 +1492,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         Like :py:meth:`Node.locate()`, only that the entire path (i.e.
         chain of descendants) relative to `self` is returned.
         """
+        if location < 0:
+            return []
         end = 0
         for path in self.select_path_if(lambda path: not path[-1]._children, include_root=True):
             end += path[-1].strlen()
-- 
2.43.0


From 150ed1b3f6e026285ab4892e7e2d7b1e921a36a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 25/91] fix: copies of a RootNode shared its errors and tag
 sets with the original

---
 DHParser/nodetree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 8331f3a..276353a 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2980,7 +2980,8 @@ class RootNode(Node):
             # duplicate._attributes = copy.deepcopy(self._attributes)  # this is blocked by cython
         duplicate.errors = copy.deepcopy(self.errors, memodict)
         duplicate._error_set = {error for error in duplicate.errors}
-        duplicate.error_nodes = {map_id.get(i, i): el[:] for i, el in self.error_nodes.items()}
+        duplicate.error_nodes = {map_id.get(i, i): copy.deepcopy(el, memodict)
+                                 for i, el in self.error_nodes.items()}
         duplicate.error_positions = {pos: {map_id.get(i, i) for i in s}
                                      for pos, s in self.error_positions.items()}
         duplicate.source = self.source
@@ -2988,9 +2989,9 @@ class RootNode(Node):
         duplicate.lbreaks = copy.deepcopy(self.lbreaks, memodict)
         duplicate.error_flag = self.error_flag
 
-        duplicate.inline_tags = self.inline_tags
-        duplicate.string_tags = self.string_tags
-        duplicate.empty_tags = self.empty_tags
+        duplicate.inline_tags = copy.copy(self.inline_tags)
+        duplicate.string_tags = copy.copy(self.string_tags)
+        duplicate.empty_tags = copy.copy(self.empty_tags)
 
         duplicate.docname = self.docname
         duplicate.stage = self.stage
-- 
2.43.0


From 90749603eac0089336a45325ecf8f7f1e4d15e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 26/91] fix: content_of() with selectors failed on leaves
 containing string views

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 276353a..8424e6c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2735,7 +2735,7 @@ def content_of(segment: Union[Node, Tuple[Node, ...], StringView, str],
         for tr in root.select_path_if(match_func, include_root=True, skip_func=skip_func):
             nd = tr[-1]
             if nd._children or skip_func(tr):  continue
-            content_list.append(nd._result)
+            content_list.append(nd.content)
     return ''.join(content_list)
 
 
-- 
2.43.0


From aaf59356fb6a1fc8bf72aded3dafc93fc5776caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 27/91] fix: ContentMapping.get_node_index() did not find nodes
 with unselected leaves at their border

---
 DHParser/nodetree.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 8424e6c..bb90ece 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5374,16 +5374,12 @@ class ContentMapping:
         if node is None:
             return -1
         if reverse:
-            while node.children:
-                node = node.children[-1]
             for i in range(len(self._path_list) - 1, -1, -1):
-                if self._path_list[i][-1] == node:
+                if node in self._path_list[i]:
                     return i
         else:
-            while node.children:
-                node = node.children[0]
             for i in range(len(self._path_list)):
-                if self._path_list[i][-1] == node:
+                if node in self._path_list[i]:
                     return i
         return -1
 
-- 
2.43.0


From f732180a2add511a60741aaafd77d08b8a3b9119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 28/91] fix: ContentMapping accepted positions beyond the end
 of the content

---
 DHParser/nodetree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index bb90ece..fd4ab69 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5287,7 +5287,8 @@ class ContentMapping:
         """
         errmsg = lambda i: f'Illegal position value {i}. ' \
                            f'Must be 0 <= position < length of text!'
-        if pos < 0:  raise IndexError(errmsg(pos))
+        if not 0 <= pos <= len(self.content) or not self._pos_list:
+            raise IndexError(errmsg(pos))
         import bisect
         try:
             path_index = bisect.bisect_right(self._pos_list, pos) - 1
@@ -5667,7 +5668,8 @@ class ContentMapping:
         parent = insert_node(path, rel_pos, node, divisables)
         if self.auto_cleanup:
             i1 = self.get_path_index(pos, left_biased=True)
-            i2 = self.get_path_index(pos + node.strlen(), left_biased=False)
+            i2 = self.get_path_index(min(pos + node.strlen(), len(self.content)),
+                                     left_biased=False)
             self.rebuild_mapping_slice(i1, i2)
         return NodeLocation(parent, index)
 
-- 
2.43.0


From 14ffd6d94ea075101fcf1f13cebe0ece7eac347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 29/91] fix: rebuilding a content mapping used the new length
 of changed leaves for cutting the old content

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index fd4ab69..31e68f3 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5610,7 +5610,7 @@ class ContentMapping:
         content, offsets, paths = self._generate_mapping(common_ancestor, stump)
         assert offsets[0] == 0
         start_pos = self._pos_list[first_index]
-        end_pos = self._pos_list[last_index] + self._path_list[last_index][-1].strlen()
+        end_pos = self._pos_list[last_index + 1] if last_index < last else len(self.content)
         offsets = [offset + start_pos for offset in offsets]
         if stump:  paths = [stump + path for path in paths]
 
-- 
2.43.0


From f2744f92d0c4935e542df3bb49a73ded518932e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 30/91] fix: inserting a node at the border of a leaf left the
 content mapping outdated

---
 DHParser/nodetree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 31e68f3..9234f30 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5600,6 +5600,10 @@ class ContentMapping:
         end_path = self._path_list[last_index]
         common_ancestor, i = find_common_ancestor(start_path, end_path)
         assert common_ancestor
+        if i > 0 and i == len(start_path) - 1:
+            # a single path: rebuild from its parent, since the leaf may have got new siblings
+            i -= 1
+            common_ancestor = start_path[i]
         while first_index > 0 and self._path_list[first_index - 1][i:i + 1] == [common_ancestor]:
             first_index -= 1
         last = len(self._path_list) - 1
-- 
2.43.0


From 8c27de7f642a864d015eaac21b2009bc6ac2e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 31/91] fix: inserting a node into a leaf lost the attributes
 of the leaf

---
 DHParser/nodetree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 9234f30..8d226a2 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4447,7 +4447,11 @@ def insert_node(leaf_path: Path, rel_pos: int, node: Node,
             return parent
         if leaf.name not in divisible_leaves:
             raise ValueError(f'Node "{leaf.name}" is not divisible!')
-        parent.result = parent.children[:i] + split_leaf(leaf, node) + parent.children[i + 1:]
+        pred, node, succ = split_leaf(leaf, node)
+        if leaf.has_attr():
+            pred.with_attr(leaf.attr)
+            succ.with_attr(leaf.attr)
+        parent.result = parent.children[:i] + (pred, node, succ) + parent.children[i + 1:]
         return parent
     else:
         if rel_pos == 0:
-- 
2.43.0


From 2a7943e26966b1790ea34d8551af3eeed08b4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 32/91] fix: nodes could not be inserted into anonymous leaves
 not listed as divisible

---
 DHParser/nodetree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 8d226a2..57d161a 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4445,7 +4445,7 @@ def insert_node(leaf_path: Path, rel_pos: int, node: Node,
         if rel_pos == leaf_len:
             parent.insert(i + 1, node)
             return parent
-        if leaf.name not in divisible_leaves:
+        if leaf.name not in divisible_leaves and not leaf.anonymous:
             raise ValueError(f'Node "{leaf.name}" is not divisible!')
         pred, node, succ = split_leaf(leaf, node)
         if leaf.has_attr():
@@ -4461,7 +4461,7 @@ def insert_node(leaf_path: Path, rel_pos: int, node: Node,
             if leaf._pos >= 0:  node._pos = leaf._pos + leaf_len
             leaf.result = (Node(leaf.name, leaf.content), node)
         else:
-            if leaf.name not in divisible_leaves:
+            if leaf.name not in divisible_leaves and not leaf.anonymous:
                 raise ValueError(f'Node "{leaf.name}" is not divisible!')
             leaf.result = split_leaf(leaf, node)
         return leaf
-- 
2.43.0


From 997e50b35f80cd8e3da06d4dc882e5c61e1d0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 33/91] fix: ContentMapping.markup() added chain-IDs to the
 dictionary passed by the caller

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 57d161a..3b09e19 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5783,7 +5783,7 @@ class ContentMapping:
         assert not attr_dict or (len(attr_dict) == 1 and isinstance(attr_dict[0], Dict)), \
             f'{attr_dict} is not a valid attribute-dictionary!'
         assert end_pos >= start_pos
-        attr_dict = attr_dict[0] if attr_dict else {}
+        attr_dict = dict(attr_dict[0]) if attr_dict else {}
         attr_dict.update(attributes)
         if start_pos == end_pos:
             milestone = Node(name, '').with_attr(attr_dict)
-- 
2.43.0


From 7983616e43011f4a951811861055514888531fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 34/91] fix: AnyChar drops its content if it has been told to

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 86fb6fe..b5ac713 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2550,6 +2550,8 @@ class AnyChar(Unparameterized):
         L = len(text)
         if location < L:
             location_ = location + 1
+            if self.drop_content:
+                return EMPTY_NODE, location_
             return Node(self.node_name, text[location:location_], True), location_
         else:
             return None, location
-- 
2.43.0


From c5e24534cacb4e1e43a0fc3427664a3e55e85d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 35/91] fix: token-functions treated tokens as substrings

add_token() did not add tokens that are contained in an other token,
remove_token() also removed parts of other tokens
---
 DHParser/nodetree.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 3b09e19..e8327a5 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3741,8 +3741,7 @@ def validate_token_sequence(token_sequence: str) -> bool:
     Token sequences are strings or words that are separated by
     single blanks with no leading or trailing blank.
     """
-    return token_sequence[:1] != ' ' and token_sequence[-1:] != ' ' \
-        and token_sequence.find('  ') < 0 and token_sequence.find('\n') < 0
+    return token_sequence == normalize_token_sequence(token_sequence)
 
 
 def normalize_token_sequence(token_sequence: str) -> str:
@@ -3791,10 +3790,11 @@ def add_token(token_sequence: str, token: str) -> str:
         >>> add_token('red thin', 'stroked red')
         'red thin stroked'
     """
-    for tk in token.split(' '):
-        if tk and token_sequence.find(tk) < 0:
-            token_sequence += ' ' + tk
-    return token_sequence.lstrip()
+    tokens = token_sequence.split()
+    for tk in token.split():
+        if tk not in tokens:
+            tokens.append(tk)
+    return ' '.join(tokens)
 
 
 def remove_token(token_sequence, token: str) -> str:
@@ -3808,9 +3808,8 @@ def remove_token(token_sequence, token: str) -> str:
         >>> remove_token('red thin stroked', 'blue stroked')
         'red thin'
     """
-    for tk in token.split(' '):
-        token_sequence = token_sequence.replace(tk, '').strip().replace('  ', ' ')
-    return token_sequence
+    tokens_to_remove = token.split()
+    return ' '.join(tk for tk in token_sequence.split() if tk not in tokens_to_remove)
 
 
 def eq_tokens(token_sequence1: str, token_sequence2: str) -> bool:
-- 
2.43.0


From 920a793be56e535cfdf6153f0be03f380c96aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 36/91] fix: json_dumps() and pp_json() wrote invalid JSON for
 some keys and numbers

Keys containing quotes, backslashes or control characters were not escaped,
keys that are not strings raised a TypeError, inf and nan as well as enums
were not written as numbers
---
 DHParser/toolkit.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 4718485..c6d8157 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1533,6 +1533,16 @@ def json_encode_string(s: str) -> str:
     return '"' + ESCAPE.sub(lambda m: ESCAPE_DCT[m.group(0)], s) + '"'
 
 
+def json_encode_key(key: Union[str, int, float, None]) -> str:
+    """Returns the JSON-string for the key of a dictionary. Just like
+    in the standard library, keys that are not strings are converted."""
+    if isinstance(key, str):
+        return json_encode_string(key)
+    if key is None or isinstance(key, (int, float)):
+        return '"' + json.dumps(key) + '"'
+    raise TypeError(f'keys must be str, int, float, bool or None, not {type(key).__name__}')
+
+
 def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bool = False) -> str:
     """Returns json-object as string. Other than the standard-library's
     `json.dumps()`-function `json_dumps` allows including already serialzed
@@ -1593,7 +1603,7 @@ def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bo
             if obj:
                 r = ['{']
                 for k, v in obj.items():
-                    r.append('"' + k + '":')
+                    r.append(json_encode_key(k) + ':')
                     r.extend(serialize(v))
                     r.append(',')
                 r[-1] = '}'
@@ -1617,7 +1627,7 @@ def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bo
         elif isinstance(obj, (int, float)):
             # NOTE: test for int must follow test for bool, because True and False
             #       are treated as instances of int as well by Python
-            return[repr(obj)]
+            return [json.dumps(obj)]
         elif isinstance(obj, JSONstr):
             return [obj.serialized_json]
         elif obj is JSONnull or isinstance(obj, JSONnull):
@@ -1692,13 +1702,13 @@ def pp_json(obj: JSON_Type, *, cls=json.JSONEncoder) -> str:
                 if len(obj) == 1:
                     k, v = next(iter(obj.items()))
                     if not isinstance(v, (dict, list, tuple)):
-                        r = ['{"' + k + '": ']
+                        r = ['{' + json_encode_key(k) + ': ']
                         r.extend(serialize(v, indent + '  '))
                         r.append('}')
                         return r
                 r = ['{\n' + indent + '  ']
                 for k, v in obj.items():
-                    r.append('"' + k + '": ')
+                    r.append(json_encode_key(k) + ': ')
                     r.extend(serialize(v, indent + '  '))
                     r.append(',\n' + indent + '  ')
                 r[-1] = '}'
@@ -1722,7 +1732,7 @@ def pp_json(obj: JSON_Type, *, cls=json.JSONEncoder) -> str:
         elif isinstance(obj, (int, float)):
             # NOTE: test for int must follow test for bool, because True and False
             #       are treated as instances of int as well by Python
-            return [repr(obj)]
+            return [json.dumps(obj)]
         elif isinstance(obj, JSONstr):
             return [obj.serialized_json]
         elif isinstance(obj, JSONnull) or obj is JSONnull:
-- 
2.43.0


From 76a590d95d19379310f1cb53dbca1adcbbbbbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 37/91] fix: server split streams of messages wrongly

- a message without content (Content-Length: 0) threw the server into an endless loop
- messages that had already been received were dropped when the client closed the stream
- headers beginning with Content-Type were not recognized when they arrived in pieces
- the Content-Length of responses was counted in characters, not in bytes
- read_full_block() did not cut off the data following the block
---
 DHParser/server.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2d134a1..aef618c 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -319,8 +319,9 @@ def http_response(html: Union[str, bytes], mime_type: str = 'text/html') -> byte
 
 def incomplete_header(data: BytesType) -> bool:
     """Returns `True` if data appears to represent an incomplete header."""
-    return b'Content-Length'.startswith(data) or \
-           (data.startswith(b'Content-Length') and not re.search(RE_DATA_START, data))
+    return any(field.startswith(data)
+               or (data.startswith(field) and not re.search(RE_DATA_START, data))
+               for field in (b'Content-Length', b'Content-Type'))
 
 
 def split_header(data: BytesType) -> Tuple[BytesType, BytesType, BytesType]:
@@ -684,10 +685,13 @@ async def read_full_block(reader: StreamReaderType) -> Tuple[int, bytes, bytes]:
             m2 = re.search(RE_DATA_START, data)
         if m2:
             header_size = m2.end()
-            missing = header_size + content_length - len(data)
-            if missing > 0:
-                data += await reader.read(missing)
-                backlog = data[header_size + content_length:]
+            block_size = header_size + content_length
+            while len(data) < block_size:
+                chunk = await reader.read(block_size - len(data))
+                if not chunk:  break
+                data += chunk
+            backlog = data[block_size:]
+            data = data[:block_size]
         else:
             header_size = 0
     else:
@@ -1383,8 +1387,9 @@ class Server:
 
         async def respond(response: Union[str, bytes, bytearray]):
             if header:
-                HEADER = JSONRPC_HEADER if isinstance(response, str) else JSONRPC_HEADER_BYTES
-                await self.respond(writer, HEADER % len(response) + response)
+                if isinstance(response, str):
+                    response = response.encode()
+                await self.respond(writer, JSONRPC_HEADER_BYTES % len(response) + response)
             else:
                 await self.respond(writer, response)
 
@@ -1591,14 +1596,16 @@ class Server:
         def connection_alive() -> bool:
             """-> `False` if connection is dead or shall be shut down."""
             return not self.kill_switch and self.connection is not None \
-                   and self.connection.alive and not reader.at_eof()  # and not reader.closed
+                   and self.connection.alive \
+                   and (buffer or not reader.at_eof())  # and not reader.closed
 
         buffer = bytearray()  # type: bytearray
         while connection_alive():
             # reset the data variable
             data = bytearray()  # type: bytearray
             # reset the content length
-            content_length = 0  # type: int
+            # (a negative value means that the content length is not yet known)
+            content_length = -1  # type: int
             # reset the length of the header, represented by the variable `k`
             k = 0  # type: int
 
@@ -1634,7 +1641,7 @@ class Server:
             #
             # see also: test/test_server.TestLanguageServer.test_varying_data_chunk_sizes
 
-            while (content_length <= 0 or len(data) < content_length + k) and connection_alive():
+            while (content_length < 0 or len(data) < content_length + k) and connection_alive():
                 if buffer:
                     # if there is any data in the buffer, retrieve this first,
                     # before awaiting further data from the stream
@@ -1643,28 +1650,26 @@ class Server:
                 else:
                     try:
                         # await asyncio.sleep(0)
-                        data += await reader.read(content_length or self.max_data_size)
+                        data += await reader.read(
+                            content_length if content_length > 0 else self.max_data_size)
                     except ConnectionError as err:  # (ConnectionAbortedError, ConnectionResetError)
                         self.log('ERROR while awaiting data: ', str(err), '\n')
                         if id_connection:
                             self.connection.alive = False
                         break
-                if content_length <= 0 or k <= 0:
+                if content_length < 0:
                     # If content-length has not been set, look for it in the received data package.
                     i = data.find(b'Content-Length:', 0, 512)
                     m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
                     if m:
-                        content_length = int(m.group(1))
                         m2 = re.search(RE_DATA_START, data)
                         if m2:
+                            content_length = int(m.group(1))
                             k = m2.end()
                             if len(data) > k + content_length:
                                 # cut the data of at header size plus content-length
                                 buffer = data[k + content_length:]
                                 data = data[:k + content_length]
-                        else:
-                            k = len(data)
-                            content_length = 0
                     elif not incomplete_header(data):
                         # no header or no content-length given
                         # set `context_length` to the size of the data to break the loop
-- 
2.43.0


From 541dbc18ec207044b84891fac83baa0834fdb82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 38/91] fix: error-responses of the server were not always
 valid JSON

Also, requests that are not encoded in UTF-8 or with an ID that is not a number
are answered with an error rather than crashing the connection
---
 DHParser/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index aef618c..5761957 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1733,8 +1733,8 @@ class Server:
                     try:
                         raw = json.loads(data) if sys.version_info >= (3, 6, 0) \
                             else json.loads(data.decode())
-                    except json.decoder.JSONDecodeError as e:
-                        rpc_error = -32700, "JSONDecodeError: " \
+                    except ValueError as e:  # JSONDecodeError or UnicodeDecodeError
+                        rpc_error = -32700, type(e).__name__ + ": " \
                             + (str(e) + str(data)).replace('"', "`")
 
                 if rpc_error is None:
@@ -1743,7 +1743,7 @@ class Server:
                         raw_id = json_obj.get('id', gen_task_id())
                         try:
                             json_id = int(raw_id)
-                        except TypeError:
+                        except (TypeError, ValueError):
                             json_id = 0
                     else:
                         rpc_error = -32700, 'Parse error: JSON-package does not appear '\
@@ -1774,8 +1774,8 @@ class Server:
                                             '"method" or "response"-field missing.'
 
                 if rpc_error is not None:
-                    response = '{"jsonrpc": "2.0", "error": {"code": %i, "message": "%s"},'\
-                        ' "id": %s}' % (rpc_error[0], rpc_error[1], json_id)
+                    response = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s},'\
+                        ' "id": %s}' % (rpc_error[0], json_encode_string(rpc_error[1]), json_id)
                     await self.respond(writer, response)
 
             if not id_connection:
-- 
2.43.0


From 7ae4c7e9266e2fd0ed897c88aea38c5560a3578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 39/91] fix: transferring errors between nodes moved or hid
 errors of other nodes

---
 DHParser/nodetree.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index e8327a5..fbe2770 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3031,7 +3031,7 @@ class RootNode(Node):
         It is possible to add errors to a RootNode object, before it
         has actually swallowed the root of the node-tree.
         """
-        if not source:
+        if not source and node is not None:
             source = node.content
         if source != self.source:
             self.source = source
@@ -3052,8 +3052,7 @@ class RootNode(Node):
         if node.has_attr():
             self._attributes = node._attributes
         # self._content = node._content
-        if id(node) in self.error_nodes:
-            self.error_nodes[id(self)] = self.error_nodes[id(node)]
+        self.transfer_errors(node, self)
         if self.source:
             add_source_locations(self.errors, self.source_mapping)
         return self
@@ -3163,9 +3162,8 @@ class RootNode(Node):
                 # add the node's errors
                 errors.extend(self.error_nodes[nid])
             elif node._children:
-                for _ in node.select_if(lambda n: id(n) == nid):
-                    break
-                else:
+                if not any(id(nd) == nid for root in (node, self)
+                           for nd in root.select_if(lambda n: True, include_root=True)):
                     # node is not connected to the tree anymore, but since errors
                     # should not get lost, display its errors on its parent
                     errors.extend(self.error_nodes[nid])
@@ -3186,8 +3184,9 @@ class RootNode(Node):
             self.error_nodes.setdefault(destId, []).extend(errorList)
             del self.error_nodes[srcId]
             for nodeSet in self.error_positions.values():
-                nodeSet.discard(srcId)
-                nodeSet.add(destId)
+                if srcId in nodeSet:
+                    nodeSet.discard(srcId)
+                    nodeSet.add(destId)
 
     @property
     def errors_sorted(self) -> List[Error]:
-- 
2.43.0


From b16a2512d25eef37586c91ee55c8387cde756c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 40/91] fix: S-expressions with quotation marks, brackets or
 several blanks in the data were garbled

---
 DHParser/nodetree.py | 84 ++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 38 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index fbe2770..adb632d 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -413,7 +413,8 @@ def create_path_match_function(criterion: PathSelector) -> PathMatchFunction:
 
 RX_IS_SXPR = LazyRE(r'\s*\(')
 RX_IS_XML = LazyRE(r'\s*<')
-RX_ATTR_NAME = LazyRE(r'[\w.:-]')
+RX_ATTR_NAME = LazyRE(r'[\w.:-]+')
+RX_SXPR_QUOTED = re.compile(r'''(?<=\s)("""(?:.|\n)*?"""|\'\'\'(?:.|\n)*?\'\'\'|"[^"]*"|'[^']*')''')
 
 
 def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
@@ -442,14 +443,11 @@ def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
     assert RX_IS_SXPR.match(sxpr)
     if threshold == 0:
         return sxpr
-    flat = re.sub(r'\s(?=\))', '', re.sub(r'\n\s*', ' ', sxpr)).strip()
-    l = flat.split('"')
-    if len(l) > 1:
-        for i in range(0, len(l), 2):
-            l[i] = re.sub(r'  +', ' ', l[i])
-        flat = '"'.join(l)
-    else:
-        flat =  re.sub(r'  +', ' ', flat)
+    l = RX_SXPR_QUOTED.split(sxpr.strip())
+    # quoted strings, i.e. the items with an odd index, must not be changed
+    for i in range(0, len(l), 2):
+        l[i] = re.sub(r'\s(?=\))', '', re.sub(r'  +', ' ', re.sub(r'\n\s*', ' ', l[i])))
+    flat = ''.join(l)
     if len(flat) > threshold > 0:
         return sxpr.strip()
     return flat
@@ -2007,9 +2005,17 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             else None  # type: Optional[RootNode]
         inner_content: str = ""
 
+        def quoted(strg: str) -> str:
+            """Encloses `strg` with the right kind of quotation marks."""
+            for qtmark in ('"', "'", '"""', "'''"):
+                if strg.find(qtmark) < 0 and strg[-1:] != qtmark[0]:
+                    return ''.join((qtmark, strg, qtmark))
+            return '"%s"' % strg.replace('"', r'\"')
+
         def attr(name: str, value: str):
-            if sxml:  return f' ({name} "{value}")'
-            else:  return f' `({name} "{value}")'
+            value = quoted(value) if name != 'err' else f'"{value}"'
+            if sxml:  return f' ({name} {value})'
+            else:  return f' `({name} {value})'
 
         def opening(node: Node) -> str:
             """Returns the opening string for the representation of `node`."""
@@ -2047,10 +2053,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
 
         def pretty(strg: str) -> str:
             """Encloses `strg` with the right kind of quotation marks."""
-            strg = subf(RX_CTRL_CHARS, ascii_char_code, strg)
-            return '"%s"' % strg if strg.find('"') < 0 \
-                else "'%s'" % strg if strg.find("'") < 0 \
-                else '"%s"' % strg.replace('"', r'\"')
+            return quoted(subf(RX_CTRL_CHARS, ascii_char_code, strg))
 
         def reflow(tab: str, content: str, depth: int) -> str:
             if len(content) < reflow_col:
@@ -3310,6 +3313,9 @@ RX_SXPR_INNER_PARSER = LazyRE(r'[?]?[\w.:-]+')
 RX_SXPR_NOTEXT = LazyRE(r'(?:(?!\)).)*', re.DOTALL)
 RX_SXPR_TEXT = {qtmark: LazyRE(qtmark + r'.*?' + qtmark, re.DOTALL)
                 for qtmark in ['"""', "'''", '"', "'"]}
+# the last of these captures an attribute-value that has not been quoted
+RX_SXPR_ATTR_VALUE = tuple(LazyRE(qtmark + '(.*?)' + qtmark + r'\s*\)', re.DOTALL)
+                           for qtmark in ['"""', "'''", '"', "'"]) + (LazyRE(r'([^)]*)\)'),)
 
 
 def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
@@ -3350,7 +3356,13 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 k = 1
                 while level > 0:
                     if s[k] in ("'", '"'):
-                        k = s.find(str(s[k]), k + 1)
+                        qtmark = str(s[k])
+                        if s[k:k + 3] == qtmark * 3:
+                            k = s.find(qtmark * 3, k + 3)
+                            if k >= 0:
+                                k += 2
+                        else:
+                            k = s.find(qtmark, k + 1)
                     if k < 0:
                         raise IndexError()
                     if s[k] == '(':
@@ -3367,37 +3379,33 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
         nonlocal remaining
         remaining = s
 
-    @cython.locals(pos=cython.int, i=cython.int, k=cython.int, m=cython.int, L=cython.int)
+    @cython.locals(pos=cython.int, i=cython.int, L=cython.int)
     def parse_attrs(sxpr: StringView, attr_start: str, attributes: Dict[str, Any]) \
                    -> Tuple[StringView, int]:
         pos: int = -1
         L: int = len(attr_start)
         while sxpr[:L] == attr_start:
-            i = sxpr.find('"')
-            k = sxpr.find(')')
-            if k > i:
-                k = sxpr.find(')', sxpr.find('"', i + 1))
-            if i < 0:
-                i = k + 1
-            if k < 0:
+            sxpr = sxpr[L:].lstrip()
+            match = sxpr.match(RX_ATTR_NAME)
+            if match is None:
+                raise ValueError('Illegal attribute name: ' + str(sxpr[:40]))
+            i = sxpr.index(match.end())
+            attr = str(sxpr[:i])
+            sxpr = sxpr[i:].lstrip()
+            for rx in RX_SXPR_ATTR_VALUE:
+                match = sxpr.match(rx)
+                if match is not None:
+                    break
+            else:
                 raise ValueError('Unbalanced parantheses in S-Expression: ' + str(sxpr))
+            value = match.group(1)
             # read very special attribute pos
-            if sxpr[L:L + 3] == "pos" and (L == 1 or 0 < k < i):
-                pos = int(str(sxpr[L + 3:k].strip(' \'"').split(' ')[0]))
-            # ignore very special attribute err
-            elif sxpr[L:L + 3] == "err" and 0 <= sxpr.find('`', L + 3) < k:
-                m = sxpr.find('(', L + 3)
-                while 0 <= m < k:
-                    m = sxpr.find('(', k)
-                    k = max(k, sxpr.find(')', max(m, 0)))
+            if attr == "pos" and (L == 1 or rx is RX_SXPR_ATTR_VALUE[-1]):
+                pos = int(value.strip().split(' ')[-1])
             # read attr
             else:
-                attr = str(sxpr[L:i].strip())
-                if not RX_ATTR_NAME.match(attr):
-                    raise ValueError('Illegal attribute name: ' + attr)
-                value = sxpr[i:k].strip()[1:-1]
-                attributes[attr] = str(value)
-            sxpr = sxpr[k + 1:].strip()
+                attributes[attr] = value
+            sxpr = sxpr[sxpr.index(match.end()):].lstrip()
         return sxpr, pos
 
     @cython.locals(pos=cython.int, i=cython.int, end=cython.int)
-- 
2.43.0


From effd211e53c652356dec61d4fc57f01831892480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 41/91] fix: children with names ending with __ were lost when
 reading dictionary-flavored JSON

---
 DHParser/nodetree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index adb632d..4ab7899 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2457,11 +2457,12 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 content = result.get('content__', None)
                 if content is None:
                     result = tuple(Node.from_json_obj({k: v})
-                                   for k, v in result_iter if k[-2:] != '__')
+                                   for k, v in result_iter
+                                   if k not in ('pos__', 'attributes__'))
                 else:
                     result = content
             node = Node(name, result)
-            if pos >= 0:  node = node.with_pos(pos)
+            node._pos = pos
             if attrs:  node = node.with_attr(attrs)
         return node
 
-- 
2.43.0


From 54704a95ce664ac06d236beee141fbc7541b23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 42/91] fix: character references in XML-texts and attributes
 were mistaken or escaped

---
 DHParser/nodetree.py | 4 ++--
 DHParser/toolkit.py  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 4ab7899..f2fa0d5 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -106,7 +106,7 @@ from DHParser.preprocess import SourceMapFunc, gen_neutral_srcmap_func
 from DHParser.stringview import StringView  # , real_indices
 from DHParser.toolkit import re, linebreaks, line_col, JSONnull, JSON_Dict, \
     validate_XML_attribute_value, fix_XML_attribute_value, lxml_XML_attribute_value, \
-    abbreviate_middle, TypeAlias, deprecated, RxPatternType, INFINITE, LazyRE, subf, \
+    abbreviate_middle, TypeAlias, deprecated, RxPatternType, INFINITE, LazyRE, subf, RX_ENTITY, \
     AbstractSet, Set, deprecation_warning, ascii_char_code, ascii_xml_entity, get_annotations
 
 try:
@@ -474,7 +474,7 @@ def flatten_xml(xml: str) -> str:
     return re.sub(r'\s+(?=<[\w:])', '', re.sub(r'(?P<closing_tag></:?\w+>)\s+', tag_only, xml))
 
 
-RX_AMPERSAND = LazyRE(r'&(?!#?\w+;)')
+RX_AMPERSAND = LazyRE(f'(?!{RX_ENTITY.regexp})&')
 
 
 def xml_tag_name(tag_name: str) -> str:
diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index c6d8157..fabd59c 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -977,7 +977,7 @@ def matching_brackets(text: str,
     return matches
 
 
-# see definition of EntityRef in: XML-grammar: XML-grammar, see https://www.w3.org/TR/xml/
+# see definition of EntityRef and CharRef in: XML-grammar: XML-grammar, see https://www.w3.org/TR/xml/
 RX_ENTITY = LazyRE(r'&(?:_|:|[A-Z]|[a-z]|[\u00C0-\u00D6]|[\u00D8-\u00F6]|[\u00F8-\u02FF]'
                    r'|[\u0370-\u037D]|[\u037F-\u1FFF]|[\u200C-\u200D]|[\u2070-\u218F]'
                    r'|[\u2C00-\u2FEF]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]'
@@ -985,7 +985,8 @@ RX_ENTITY = LazyRE(r'&(?:_|:|[A-Z]|[a-z]|[\u00C0-\u00D6]|[\u00D8-\u00F6]|[\u00F8
                    r'|[\u0300-\u036F]|[\u203F-\u2040]|[\u00C0-\u00D6]|[\u00D8-\u00F6]'
                    r'|[\u00F8-\u02FF]|[\u0370-\u037D]|[\u037F-\u1FFF]|[\u200C-\u200D]'
                    r'|[\u2070-\u218F]|[\u2C00-\u2FEF]|[\u3001-\uD7FF]|[\uF900-\uFDCF]'
-                   r'|[\uFDF0-\uFFFD]|[\U00010000-\U000EFFFF])*;')
+                   r'|[\uFDF0-\uFFFD]|[\U00010000-\U000EFFFF])*;'
+                   r'|&#[0-9]+;|&#x[0-9a-fA-F]+;')
 
 
 def validate_XML_attribute_value(value: Any) -> str:
-- 
2.43.0


From 66a7cc574a493c3f181ecd8a0154237a769cb876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 43/91] fix: inlined XML-elements got additional whitespace
 after linefeeds

---
 DHParser/nodetree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index f2fa0d5..568a649 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1871,7 +1871,12 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                         i += 1
                     while k >= 0 and not lines[k]:
                         k -= 1
-                tb = usetab + (tab if reflow or not inline else '')
+                if not inline:
+                    tb = usetab + tab
+                elif reflow_fn is NO_REFLOW:
+                    tb = ''  # don't add any whitespace to inlined content
+                else:
+                    tb = usetab + (tab if reflow else '')
                 content = [usetab + head, tb] if hlf else [usetab + head]  # + tb?
                 for line in lines[i:k]:
                     content[-1] += line
-- 
2.43.0


From cfc3af6c36b64c3171148e885f20c63e4d726c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 44/91] fix: parse_xml() misread attributes with single quotes
 or '>' in their values

---
 DHParser/nodetree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 568a649..e713abb 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3487,7 +3487,7 @@ def parse_sxml(sxml: Union[str, StringView]) -> RootNode:
 
 
 RX_WHITESPACE_TAIL = LazyRE(r'\s*$')
-RX_XML_ATTRIBUTES = LazyRE(r'\s*(?P<attr>[\w:.-]+)\s*=\s*"(?P<value>.*?)"\s*')
+RX_XML_ATTRIBUTES = LazyRE(r'\s*(?P<attr>[\w:.-]+)\s*=\s*(?P<value>"[^"]*"|\'[^\']*\')\s*')
 RX_XML_SPECIAL_TAG = LazyRE(r'<(?![?!])')
 RX_XML_OPENING_TAG = LazyRE(r'<\s*(?P<tagname>[\w:.-]+)\s*')
 RX_XML_CLOSING_TAG = LazyRE(r'</\s*(?P<tagname>[\w:.-]+)\s*>')
@@ -3547,13 +3547,13 @@ def parse_xml(xml: Union[str, StringView],
         beginning after the end of the attr.
         """
         attributes = dict()  # type: Dict[str, Any]
-        eot = s.find('>')
         restart = 0
         for match in s.finditer(RX_XML_ATTRIBUTES):
-            if s.index(match.start()) >= eot:
+            # the tag ends with the first ">" that is not part of an attribute-value
+            if s.index(match.start()) >= s.find('>', restart):
                 break
             d = match.groupdict()
-            attributes[d['attr']] = d['value']
+            attributes[d['attr']] = d['value'][1:-1]
             restart = s.index(match.end())
         return s[restart:], attributes
 
@@ -3592,7 +3592,7 @@ def parse_xml(xml: Union[str, StringView],
         s, attributes = parse_attributes(section)
         i = s.find('>')
         assert i >= 0
-        return s[i + 1:], tagname, attributes, s[i - 1] == "/"
+        return s[i + 1:], tagname, attributes, s[max(i - 1, 0)] == "/"
 
     def parse_closing_tag(s: StringView) -> Tuple[StringView, str]:
         """
-- 
2.43.0


From 1d56e5ae9679050cd74ac41a905d56e1bce7ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 45/91] fix: no mere warning if a document consisting of
 whitespace does not match

---
 DHParser/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index b5ac713..f041d01 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2087,8 +2087,11 @@ class Grammar:
 
             if location < L and (complete_match is True
                     or (complete_match is not False and
-                        re.fullmatch(getattr(self, complete_match),
-                                     self.text__[location:]) is None)):
+                        # if nothing but whitespace has been left over, the match is
+                        # complete, but not if the parser did not match in the first place
+                        ((result is None and not stitches) or
+                         re.fullmatch(getattr(self, complete_match),
+                                      self.text__[location:]) is None))):
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
-- 
2.43.0


From f7823e196f18593b8e9678a279e9f4cf5106589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 46/91] fix: move_fringes() to the right moves all children if
 all of them fulfill the condition

---
 DHParser/transform.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index eee6236..a1fafd7 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1575,15 +1575,12 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
     children = node._children
 
     a, b = 0, len(children)
-    while a < b:
-        if condition(path + [children[a]]):
+    if side != "right":
+        while a < b and condition(path + [children[a]]):
             a += 1
-        elif condition(path + [children[b - 1]]):
+    if side != "left":
+        while a < b and condition(path + [children[b - 1]]):
             b -= 1
-        else:
-            break
-    if side == "left":  b = len(children)
-    elif side == "right":  a = 0
     before = children[:a]
     after = children[b:]
     children = children[a:b]
-- 
2.43.0


From e070dfc516919806097d2e5ab4dea198dd43a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 47/91] fix: move_fringes() lost neighbours that could not be
 merged with the moved nodes

---
 DHParser/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index a1fafd7..09d289e 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1608,14 +1608,14 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
 
             if len(before) + len(prevN) > 1:
                 target = before[-1] if before else prevN[0]
-                if merge_results(target, prevN + before, path[0]):
-                    before = (target,)
+                before = (target,) if merge_results(target, prevN + before, path[0]) \
+                    else prevN + before
             before = before or prevN
 
             if len(after) + len(nextN) > 1:
                 target = after[0] if after else nextN[-1]
-                if merge_results(target, after + nextN, path[0]):
-                    after = (target,)
+                after = (target,) if merge_results(target, after + nextN, path[0]) \
+                    else after + nextN
             after = after or nextN
 
         parent._set_result(parent_children[:a + 1] + before + (node,) + after + parent_children[b:])
-- 
2.43.0


From a9f5cf6f5e515b7cceabf4b3e300c8c86e9f5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 48/91] fix: content_matches() and name_matches() match the
 complete string

---
 DHParser/transform.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 09d289e..cf81c81 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -759,9 +759,7 @@ def name_matches(path: Path, regexp: str) -> bool:
     Returns true, if the node's name matches the regular
     expression `regexp` completely. For example, ':.*' matches all anonymous nodes.
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].name))
+    return bool(re.fullmatch(regexp, path[-1].name))
 
 
 @transformation_factory
@@ -772,9 +770,7 @@ def content_matches(path: Path, regexp: str) -> bool:
     In contrast to ``re.match`` the regular expression must match the complete
     string and not just the beginning of the string to succeed!
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].content))
+    return bool(re.fullmatch(regexp, path[-1].content))
 
 
 @transformation_factory
-- 
2.43.0


From b0b8d10efe37ae734a21234114683eec2dd2a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 49/91] fix: has_ancestor() does not consider the node itself
 as its ancestor

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index cf81c81..5b6c695 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -826,7 +826,7 @@ def has_ancestor(path: Path,
     else:
         trl = path
     if generations <= 0:
-        return any(nd.name in name_set for nd in trl)
+        return any(nd.name in name_set for nd in trl[:-1])
     for i in range(2, min(generations + 2, len(trl) + 1)):
         if trl[-i].name in name_set:
             return True
-- 
2.43.0


From a50b241650cbc17e31078d69f97fb7b15de94d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 50/91] fix: collapse_children_if() applies the merge rule to
 nested nodes as well

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 5b6c695..9dec3f6 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1257,7 +1257,7 @@ def collapse_children_if(path: Path,
     for child in node._children:
         if condition(path + [child]):
             if child._children:
-                collapse_children_if(path + [child], condition, target_name)
+                collapse_children_if(path + [child], condition, target_name, merge_rule)
                 for c in child._children:
                     if condition(path + [child, c]):
                         package.append(c)
-- 
2.43.0


From a9ad89c6cd093ec53d100469a7dc3247ec2162f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 51/91] fix: update_attr_unless() accepts a single node as
 source

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 9dec3f6..968ac35 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -946,7 +946,7 @@ def update_attr_unless(dest: Node,
         update_attr(dest, src, root)
     else:
         if isinstance(src, Node):
-            src = (Node,)
+            src = (src,)
         src = tuple(s for s in src if not exclude([s]))
         update_attr(dest, src, root)
 
-- 
2.43.0


From 29fbbe13757ce939f675887dccd2e647269ba271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 52/91] fix: filters in transformation tables affect the first
 node with the same name, too

---
 DHParser/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 968ac35..1a7a31e 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -438,10 +438,10 @@ def traverse(tree: Node,
             post = table.get('>', [])
             assert not any(isinstance(callable, Filter) for callable in post)
             sequence = pre + main + post
-            all_filters = filters + more_filters
-            if BLOCK_CHILDREN in all_filters:
-                all_filters = [BLOCK_CHILDREN]
-            cache[key] = (all_filters, sequence)
+            filters = filters + more_filters
+            if BLOCK_CHILDREN in filters:
+                filters = [BLOCK_CHILDREN]
+            cache[key] = (filters, sequence)
 
         children = node._children
         for filter in filters:
-- 
2.43.0


From ae1a09d39e9b484c5c7f50fa118944f80670e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 53/91] fix: matching_brackets() reports all unmatched opening
 brackets

---
 DHParser/toolkit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index fabd59c..659f7cc 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -969,11 +969,11 @@ def matching_brackets(text: str,
         except IndexError:
             if unmatched is not NOPE:  unmatched.append(b)
         b = text.find(closeB, b + db)
+    while a >= 0:
+        stack.append(a)
+        a = text.find(openB, a + da)
     if unmatched is not NOPE:
-        if stack:
-            unmatched.extend(stack)
-        elif a >= 0:
-            unmatched.append(a)
+        unmatched.extend(stack)
     return matches
 
 
-- 
2.43.0


From c0be29668d57d101fcd3081b5f6a0f19e26ee80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 54/91] fix: wrap_str_nicely() does not drop a single last
 character

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 659f7cc..d583cba 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -831,7 +831,7 @@ def wrap_str_nicely(s: str, wrap_column: int = 79, tolerance: int = 24,
             parts.append(s[a:i])
             a = i
             i += wrap_column
-    if a < len(s) - 1:  parts.append(s[a:])
+    if a < len(s):  parts.append(s[a:])
     return '\n'.join(parts)
 
 
-- 
2.43.0


From 22cb6acb86b050da3d13362db897c9a317d398d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 55/91] fix: wrap_str_nicely() does not fail on long runs of
 wrap-characters

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index d583cba..a43ed5d 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -817,7 +817,7 @@ def wrap_str_nicely(s: str, wrap_column: int = 79, tolerance: int = 24,
     while i < len(s):
         for ch in wrap_chars:
             m = i
-            while s[m] == ch:  m -= 1
+            while m > a and s[m] == ch:  m -= 1
             if i - m > tolerance // 2:
                 continue
             k = s.rfind(ch, a, m)
-- 
2.43.0


From 446e80de1b8c16fe564a83bff27fb252699ad229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 56/91] fix: abbreviate_middle() never returns more than
 max_length characters

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index a43ed5d..88ca4ea 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -703,7 +703,7 @@ def abbreviate_middle(s: str, max_length: int) -> str:
     if length > max_length:
         a = max_length // 2 - 2  # type: int
         b = max_length // 2 - 3  # type: int
-        s = s[:a] + ' ... ' + s[-b:] if length > 40 else s
+        s = s[:a] + ' ... ' + s[length - b:]
     return s
 
 
-- 
2.43.0


From c35bfc7c0b8d0b3b19f7ce974bcd60d8476689ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 57/91] fix: relative_path() does not cut path-components with
 a common prefix apart

---
 DHParser/toolkit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 88ca4ea..936a1e2 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -474,6 +474,7 @@ def relative_path(from_path: str, to_path: str) -> str:
     L = min(len(from_path), len(to_path))
     while i < L and from_path[i] == to_path[i]:
         i += 1
+    i = from_path.rfind('/', 0, i) + 1  # back up to the beginning of the path-component
     return os.path.normpath(from_path[i:].count('/') * '../' + to_path[i:])
 
 
-- 
2.43.0


From 158676bad2c8698abc893983785a8df776a32970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 58/91] fix: split_path() terminates on absolute paths

---
 DHParser/toolkit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 936a1e2..f742093 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -489,7 +489,9 @@ def split_path(path: str) -> Tuple[str, ...]:
     """
     split = os.path.split(path)
     while split[0]:
-        split = os.path.split(split[0]) + split[1:]
+        head, tail = os.path.split(split[0])
+        if not tail:  return split  # root-directory of an absolute path
+        split = (head, tail) + split[1:]
     return split[1:]
 
 
-- 
2.43.0


From 62d14d9135f135fd2c322d4d473f060e81efd8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 59/91] fix: matching_brackets() is not confused by escaped
 square brackets

---
 DHParser/toolkit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index f742093..9b56bc7 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -892,9 +892,7 @@ def as_identifier(s: str, replacement: str = "_") -> str:
 NOPE = []  # a list that is empty and is supposed to remain empty
 INFINITE = 2**30  # a practically infinite value
 
-_RX_CHARSET = LazyRE(r'(?<=\[)(?:(?<!\\)(?:\\\\)*\\\]|[^\]])*(?=\])')
-_RX_ESCAPED_ROUND_BRACKET = LazyRE(r'(?<!\\)(?:\\\\)*\\[()]')
-_RX_ESCAPED_SQUARE_BRACKET = LazyRE(r'(?<!\\)(?:\\\\)*\\[\[\]]')
+_RX_ESCAPED_OR_CHARSET = LazyRE(r'(?s)\\.|\[(?:[^\]\\]|\\.)*\]')
 
 
 def _sub_size(rx: Union[RxPatternType, LazyRE], text: str, fill_char: str = ' ') -> str:
@@ -948,9 +946,11 @@ def matching_brackets(text: str,
     assert not unmatched, \
         "Please pass an empty list as unmatched flag, not: " + str(unmatched)
     if is_regex:
-        text = _sub_size(_RX_CHARSET, text)
-        text = _sub_size(_RX_ESCAPED_ROUND_BRACKET, text)
-        text = _sub_size(_RX_ESCAPED_SQUARE_BRACKET, text)
+        # one pass, because an escaped bracket does not open a charset, and
+        # an escaped backslash does not escape the following bracket
+        text = subf(_RX_ESCAPED_OR_CHARSET,
+                    lambda ms: ms[0] + ' ' * (len(ms) - 2) + ms[-1] if ms[0] == '[' else '  ',
+                    text)
     stack, matches = [], []
     da = len(openB)
     db = len(closeB)
-- 
2.43.0


From 4e7b951fbfdf3358a89ad82efa7b7bb80584ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 60/91] fix: wrap_str_literal() never cuts escape-sequences or
 placeholders apart

---
 DHParser/toolkit.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 9b56bc7..8035305 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -710,6 +710,13 @@ def abbreviate_middle(s: str, max_length: int) -> str:
     return s
 
 
+_RX_LITERAL_ATOMS = {  # indivisible parts of string-literals: (is_raw, is_fstring) -> regex
+    (raw, fstr): LazyRE(
+        ('(?s)' if raw else r'(?s)\\x\w\w|\\u\w{4}|\\U\w{8}|\\N\{[^}]*\}|\\[0-7]{1,3}|')
+        + r'\\.|' + (r'\{\{|\}\}|\{[^{}]*\}|' if fstr else '') + '.')
+    for raw in (False, True) for fstr in (False, True)}
+
+
 def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0) -> str:
     r"""Wraps an excessively long string literal over several lines.
     Example::
@@ -750,16 +757,14 @@ def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0
     assert len(s) >= 2 and q == s[-1] and q in ('"', "'", "`", "´"), \
         "string literal must be enclosed by quotation marks"
     if parts is None:
-        parts = [s[i: i + column] for i in range(0, len(s), column)]
-        for i in range(len(parts) - 1):
-            p = parts[i]
-            k = 1
-            while k <= len(p) and p[-k] == '\\':
-                k += 1
-            k -= 1
-            if k > 0:
-                parts[i] = p[:-k]
-                parts[i + 1] = p[-k:] + parts[i + 1]
+        # never wrap in the middle of an escape-sequence or f-string-placeholder
+        rx = _RX_LITERAL_ATOMS['r' in r.lower(), 'f' in r.lower()]
+        parts = ['']
+        for m in rx.finditer(s):
+            atom = m.group(0)
+            if len(parts[-1]) + len(atom) > column and len(parts[-1]) > len(q):
+                parts.append('')
+            parts[-1] += atom
     if r:  parts[0] = r + parts[0]
     wrapped = (''.join([q, '\n', ' ' * offset, r, q])).join(parts)
     return wrapped
-- 
2.43.0


From 8a541e6ff3b2403b21c6ba1fbd0551ff55d4133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 61/91] fix: expand_table() reports duplicate keys inside of
 tuples as KeyError

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 8035305..1a2542a 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1480,7 +1480,7 @@ def expand_table(compact_table: Dict) -> Dict:
         value = compact_table[key]
         for k in smart_list(key):
             if k in expanded_table:
-                raise KeyError('Key "%s" used more than once in compact table!' % key)
+                raise KeyError('Key "%s" used more than once in compact table!' % str(k))
             expanded_table[k] = value
     return expanded_table
 
-- 
2.43.0


From f4d69ed9b10f5dba1ca9969c6bc5c6b2b266be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 62/91] fix: get_config_values() respects the values set in the
 thread for all patterns

---
 DHParser/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 963ba4e..bb28914 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -471,7 +471,7 @@ def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
                 cfg_values.update(cfg)
             else:
                 cfg_values.update({key: value for key, value in cfg.items()
-                                   if fnmatch.fnmatchcase(key, key_pattern)})
+                                   if fnmatch.fnmatchcase(key, pattern)})
         presets.update(cfg_values)
         cfg.update(presets)
     return presets
-- 
2.43.0


From b66b7a7698a2f65cd7d7f55bd1b74322541d9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 63/91] fix: faulty entries of configuration-files are all
 reported and do not leave the presets open

---
 DHParser/configuration.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index bb28914..894043b 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -275,18 +275,16 @@ def ingest_config_data(config, sources=''):
     configparser.ConfigParser-object."""
     errors = []
     access_presets()
-    for section in config.sections():
-        try:
-            if section.lower() == "dhparser":
-                for variable, value in config[section].items():
-                    set_preset_value(f"{variable}", eval(value))
-            else:
-                for variable, value in config[section].items():
-                    set_preset_value(f"{section}.{variable}", eval(value),
-                                     allow_new_key=True)
-        except ValueError as e:
-            errors.append(' '.join(e.args))
-    finalize_presets()
+    try:
+        for section in config.sections():
+            prefix = "" if section.lower() == "dhparser" else section + '.'
+            for variable, value in config[section].items():
+                try:
+                    set_preset_value(prefix + variable, eval(value), allow_new_key=bool(prefix))
+                except Exception as e:
+                    errors.append(f'{prefix}{variable} = {value}: {e}')
+    finally:
+        finalize_presets()
     if errors:
         sources = f' files: {sources}'
         raise ValueError(f"\n\nErrors found in configuration{sources}:\n\n"
-- 
2.43.0


From 6cdeed8b6520aec6509258e22a5871e211aff0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 64/91] fix: dump_config_data() yields well-formed
 config.ini-data

---
 DHParser/configuration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 894043b..efb8bb0 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -518,7 +518,8 @@ def dump_config_data(*key_patterns, use_headings: bool = True) -> str:
         if data:
             results = []
             last_prefix = None
-            for k, v in data.items():
+            # sort by section so that each section appears only once
+            for k, v in sorted(data.items(), key=lambda item: item[0][:item[0].find('.') + 1]):
                 i = k.find('.')
                 prefix = k[:i + 1]
                 name = k[i + 1:] if use_headings else k
@@ -527,7 +528,7 @@ def dump_config_data(*key_patterns, use_headings: bool = True) -> str:
                     if use_headings:
                         results.append(f'[{prefix[:-1]}]' if prefix else "[DHParser]")
                     last_prefix = prefix
-                results.append(f'{name} = {repr(v)}')
+                results.append(f'{name} = {repr(v)}'.replace('%', '%%'))
             if not results[0]:  del results[0]
             results.append('')
             return '\n'.join(results)
-- 
2.43.0


From 2ce436f2ba8a5e5c51b729279ff97e7b8f116c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 65/91] fix: the end of a text that ends with a
 preprocessor-token can be mapped

---
 DHParser/preprocess.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 3d72da5..646bb88 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -379,9 +379,8 @@ def tokenized_to_original_mapping(tokenized_text: str,
         positions.extend([d + 1, e + 1])
         offsets.extend([o + 1, o])
         i = tokenized_text.find(BEGIN_TOKEN, e + 1)
-    if e + 1 < len(tokenized_text):
-        positions.append(len(tokenized_text) + 1)
-        offsets.append(offsets[-1])
+    positions.append(len(tokenized_text) + 1)
+    offsets.append(offsets[-1])
 
     # specific condition for preprocessor tokens
     assert all(offsets[i] > offsets[i + 1] for i in range(len(offsets) - 2))
-- 
2.43.0


From b68ffc159696c036100f14e8bdad9b48419c6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 66/91] fix: SourceMap.validate() notices lists of different
 lengths

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 646bb88..3a5aaa9 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -291,7 +291,7 @@ class SourceMap(NamedTuple):
     __module__ = __name__       # needed for cython compatibility
 
     def validate(self) -> SourceMap:   # actually returns Self
-        if len(self.positions) != len(self.offsets) != len(self.file_names):
+        if not len(self.positions) == len(self.offsets) == len(self.file_names):
             raise ValueError("The length of the lists of positions, offsets and file names "
                              "must be equal.")
         if len(self.positions) < 2:
-- 
2.43.0


From 88850eb5d1a919d5c7a05ee22efb807046bcce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 67/91] fix: chain_preprocessors() recognizes
 include-preprocessors that are not at the first place

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 3a5aaa9..0c5d355 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -196,7 +196,7 @@ def chain_preprocessors(*preprocessors) -> PreprocessorFunc:
     """
     Merges a sequence of preprocessor functions in to a single function.
     """
-    if any(prep is preprocess_includes for prep in preprocessors[1:]):
+    if any(getattr(prep, 'func', prep) is preprocess_includes for prep in preprocessors[1:]):
         raise ValueError("The preprocessor for include files must be applied first, "
                          "and there can be no more than one preprocessor for includes.")
     return functools.partial(_apply_preprocessors, preprocessors=preprocessors)
-- 
2.43.0


From 7c855e938948f41fee89d5ab5e75cd0e8af3fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 68/91] fix: tokens of earlier preprocessors do not shift the
 positions in a chain of preprocessors

---
 DHParser/preprocess.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 0c5d355..7813fa9 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -375,9 +375,11 @@ def tokenized_to_original_mapping(tokenized_text: str,
         d = tokenized_text.find(TOKEN_DELIMITER, i)
         e = tokenized_text.find(END_TOKEN, i)
         assert 0 <= d < e
-        o -= (d - i + 2)
-        positions.extend([d + 1, e + 1])
-        offsets.extend([o + 1, o])
+        # leave out tokens that have been added by an earlier preprocessor
+        if tokenized_text[i:e + 1] != original_text[i + o:e + 1 + o]:
+            o -= (d - i + 2)
+            positions.extend([d + 1, e + 1])
+            offsets.extend([o + 1, o])
         i = tokenized_text.find(BEGIN_TOKEN, e + 1)
     positions.append(len(tokenized_text) + 1)
     offsets.append(offsets[-1])
-- 
2.43.0


From 3f0108dd518ec3fc4b3fdfb18de5b5e9a5e1aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:08 +0000
Subject: [PATCH 69/91] fix: files that are included only once keep their text
 in the source-map

---
 DHParser/preprocess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 7813fa9..50fcbc9 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -525,7 +525,10 @@ def generate_include_map(original_name: str,
             map.file_names.extend(inner_map.file_names[:-1])
             map.positions.extend(inner_map.positions[:-1])
             map.offsets.extend(inner_map.offsets[:-1])
-            map.originals_dict.update(inner_map.originals_dict)
+            for name, text in inner_map.originals_dict.items():
+                # don't overwrite text with "" if a file has been read only once
+                if text:  map.originals_dict[name] = text
+                else:  map.originals_dict.setdefault(name, text)
             result.append(inner_text)
             inner_length = len(inner_text)
             result_pointer += inner_length
-- 
2.43.0


From 14cdbe2ef61de76541df37135ed20d781ac7ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 70/91] fix: run_pipeline() can reach intermediary stages
 together with later stages

---
 DHParser/pipeline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 96627e0..7373f32 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -322,6 +322,12 @@ def run_pipeline(junctions: Set[Junction],
     sources = [j[0] for step in steps for j in step]
     disposables = {s for s in set(sources) if s not in target_stages and sources.count(s) <= 1}
     steps.reverse()
+
+    def distance(stage: str) -> int:
+        return 0 if stage in source_stages else distance(t_to_j[stage][0]) + 1
+
+    # make sure that each stage is reached before the stages that depend on it
+    steps = [sorted((j for step in steps for j in step), key=lambda j: distance(j[-1]))]
     results: Dict[str, Any] = source_stages.copy()
     errata: Dict[str, List[Error]] = {s: source_stages[s].errors_sorted for s in source_stages}
     cancel = False
-- 
2.43.0


From c20fec6356698c53d135bbc97495637b743a3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 71/91] fix: run_pipeline() reports that it has been canceled

---
 DHParser/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 7373f32..6453423 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -356,9 +356,9 @@ def run_pipeline(junctions: Set[Junction],
                     elif hasattr(transformation, 'cancel_query__'):
                         transformation.cancel_query__ = cancel_query
                     results[t] = process_tree(transformation, tree)  # TODO: pass cancel query, here
-                    errata[t] = copy.copy(tree.errors_sorted)
                     if cancel_query is not None and cancel_query():
                         tree.new_error(tree, "Pipeline-processing canceled!", CANCELED)
+                    errata[t] = copy.copy(tree.errors_sorted)
                     if is_fatal(tree.error_flag):
                         cancel = True
                         break
-- 
2.43.0


From 8a3852f6362087efc82928b8e1100c0c4f6f6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 72/91] fix: run_pipeline() recognizes untouched stage-names
 regardless of their case

---
 DHParser/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 6453423..cf73ec3 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -362,7 +362,7 @@ def run_pipeline(junctions: Set[Junction],
                     if is_fatal(tree.error_flag):
                         cancel = True
                         break
-                    if tree.stage == s:  # tree stage hasn't been set by the processing function
+                    if tree.stage.lower() == s.lower():  # tree stage hasn't been set by the processing function
                         tree.stage = junction[2]
                     else:
                         verify_stage(tree.stage, junction, 2)
-- 
2.43.0


From 7f314fbcb8cdfb8a0b34988742d328f47548a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 73/91] fix: attribute-visitors are called only once per
 attribute

---
 DHParser/compile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index aa962c7..9d1497c 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -314,8 +314,7 @@ class Compiler:
                     if nd is not None and nd.name != EMPTY_PTYPE:
                         result.append(nd)
                 node.result = tuple(result)
-        if self.has_attribute_visitors:
-            self.visit_attributes(node)
+        # attributes will be visited by Compiler.compile()
         return node
 
     def find_compilation_method(self, node: Node) -> CompileMethod:
-- 
2.43.0


From a7f040291bd296567687a4f321a899b6f5d1e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 74/91] fix: AttributeErrors inside attribute-visitors are not
 swallowed

---
 DHParser/compile.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 9d1497c..aba7a6a 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -280,11 +280,9 @@ class Compiler:
         if node.has_attr():
             self.path.append(node)
             for attribute, value in tuple(node.attr.items()):
-                try:
-                    attribute_visitor = self.__getattribute__(self.attr_visitor_name(attribute))
+                attribute_visitor = getattr(self, self.attr_visitor_name(attribute), None)
+                if attribute_visitor is not None:
                     attribute_visitor(node, value)
-                except AttributeError:
-                    pass
             self.path.pop()
 
     def fallback_compiler(self, node: Node) -> Any:
-- 
2.43.0


From 3c027d725b8ff9d851856745d93c3b1014a7b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 75/91] fix: Compiler.visitor_name() yields an identifier for
 names with a trailing linefeed

---
 DHParser/compile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index aba7a6a..ee6d34b 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -182,11 +182,11 @@ class Compiler:
             >>> c.visitor_name('!--')
             'on_212d2d'
         """
-        if re.match(r'\w+$', node_name):
+        if re.fullmatch(r'\w+', node_name):
             return 'on_' + node_name
         if node_name[:1] ==  ':':
             vname = 'on_' + node_name[1:] + '__'
-            if re.match(r'\w+$', vname):  return vname
+            if re.fullmatch(r'\w+', vname):  return vname
         letters = []
         for ch in node_name:
             if not re.match(r'\w', ch):
-- 
2.43.0


From 124fe2f17576eda0fe42e3859a6365e31cca7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 76/91] fix: deep copies of grammars keep disposability,
 tree-reduction and settings and are not analyzed again

---
 DHParser/parse.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index f041d01..44bcd91 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1709,7 +1709,24 @@ class Grammar:
 
 
     def __deepcopy__(self, memo):
-        duplicate = self.__class__(self.root_parser__)
+        def named_root(grammar: Grammar) -> Parser:
+            root = grammar.root_parser__
+            return cast(Forward, root).parser if isinstance(root, Forward) else root
+
+        duplicate = self.__class__(self.root_parser__, static_analysis=False)
+        # undo the changes that the constructor makes to a root-parser that has been passed to it
+        named_root(duplicate).disposable = named_root(self).disposable
+        if self.static_analysis_pending__ is self.__class__.static_analysis_pending__:
+            # the root-parser of self has been taken from the class
+            duplicate.static_analysis_pending__ = self.static_analysis_pending__
+            duplicate.static_analysis_errors__ = self.static_analysis_errors__
+            TreeReduction(duplicate.all_parsers__ - duplicate.root_parser__.descendants(),
+                          self.early_tree_reduction__)
+        else:
+            duplicate.static_analysis_pending__ = self.static_analysis_pending__.copy()
+            duplicate.static_analysis_errors__ = self.static_analysis_errors__.copy()
+        duplicate.left_recursion__ = self.left_recursion__
+        duplicate.cancel_query__ = self.cancel_query__
         duplicate.history_tracking__ = self.history_tracking__
         duplicate.resume_notices__ = self.resume_notices__
         duplicate.max_parser_dropouts__ = self.max_parser_dropouts__
-- 
2.43.0


From e29f752b2ac5a063582109f0a7721cd775ccf7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 77/91] fix: the tree of an empty document has a position even
 if the root-parser is disposable

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 44bcd91..1cd35e2 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2070,6 +2070,8 @@ class Grammar:
                     self.tree__.new_error(
                         result, 'Parser %s did not match empty document.' % str(parser),
                         PARSER_STOPPED_BEFORE_END)
+            elif result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
+                result = Node(EMPTY_PTYPE, '').with_pos(0)
 
         # copy to local variable, so break condition can be triggered manually
         max_parser_dropouts = self.max_parser_dropouts__
-- 
2.43.0


From b6b2ed1226ec5b091bf0faa560c036cf26492d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 78/91] fix: copies of IgnoreCase-parsers keep the length of
 the text to match

---
 DHParser/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 1cd35e2..3c05dc8 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2767,6 +2767,11 @@ class IgnoreCase(Text):
         super().__init__(text.lower())
         self.len = len(text)
 
+    def __deepcopy__(self, memo):
+        duplicate = super().__deepcopy__(memo)
+        duplicate.len = self.len  # len(text) and len(text.lower()) may differ, e.g. "İ"
+        return duplicate
+
     @cython.locals(location_=cython.int)
     @cython.returns((object, cython.int))
     def _parse(self, location: cython.int) -> ParsingResult:
-- 
2.43.0


From 61392855e4e5194499647e13872e098936ef47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:32 +0000
Subject: [PATCH 79/91] fix: errors of empty documents have a location

---
 DHParser/nodetree.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index e713abb..91b0299 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3062,8 +3062,9 @@ class RootNode(Node):
             self._attributes = node._attributes
         # self._content = node._content
         self.transfer_errors(node, self)
-        if self.source:
-            add_source_locations(self.errors, self.source_mapping)
+        # in an empty source the only valid error-position is 0
+        add_source_locations([e for e in self.errors if self.source or e.pos == 0],
+                             self.source_mapping)
         return self
 
     def continue_with_data(self, data: Any):
@@ -3114,7 +3115,7 @@ class RootNode(Node):
         node = cast(Node, node)
         if node.pos <= error.pos <= node.pos + max(node.strlen(), 1):  # node.pos == error.pos:
             self.error_positions.setdefault(error.pos, set()).add(id(node))
-        if self.source:
+        if self.source or (error.pos == 0 and self.name != '__not_yet_ready__'):
             add_source_locations([error], self.source_mapping)
         self.errors.append(error)
         self._error_set.add(error)
-- 
2.43.0


From 12eea5236a7797ae1c130da79cd6beb21caae90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 80/91] fix: character codes in EBNF compile to regular
 expressions that match these characters

Lead-ins other than CH_LEADIN were not stripped, codes in /[...]/-ranges lost
their lead-in and codes of special characters ended up unescaped.
---
 DHParser/ebnf.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8a000c7..658c2bd 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -998,7 +998,8 @@ def transform_ebnf(cst: RootNode) -> RootNode:
 ########################################################################
 
 
-def serialize_character(path: Path, content: str) -> str:
+def serialize_character(path: Path, *strings) -> str:
+    content = strings[-1]  # any item before is a lead-in
     assert isinstance(content, str)
     l = len(content)
     assert l <= 8
@@ -3613,14 +3614,25 @@ class EBNFCompiler(Compiler):
         return self.REGEXP_PARSER(arg, self.drop_on(DROP_REGEXP))
 
 
+    def range_chain_rx(self, node: Node) -> str:
+        """Returns the regular expression for a range_chain-node."""
+        assert node.name == "range_chain"
+
+        def rx(nd: Node) -> str:
+            if nd.name == "character" and nd.content[:1] != '\\':
+                return self.extract_character(nd)
+            return ''.join(rx(child) for child in nd.children) if nd.children else nd.content
+
+        return '[' + rx(node) + ']'
+
     def smartRE_char_ranges(self, node) -> Tuple[str, str]:
-        arg =  "|".join('[' + child.content + ']'
-                        for child in node.children if child.name == "range_chain")
+        arg = "|".join(self.range_chain_rx(child)
+                       for child in node.children if child.name == "range_chain")
         pattern = f'(?:{arg})' if self.drop_on(DROP_REGEXP) else f'({arg})'
         return pattern.replace('{', '{{').replace('}', '}}'), f'/{arg}/'
 
     def on_char_ranges(self, node) -> str:
-        node.result = "|".join('[' + child.content + ']'
+        node.result = "|".join(self.range_chain_rx(child)
                                for child in node.children
                                if child.name == "range_chain")
         return self.on_regexp(node)
@@ -3640,7 +3652,7 @@ class EBNFCompiler(Compiler):
     def on_char_range(self, node) -> str:
         re_str, _ = self.smartRE_char_range(node)
         re_str = re_str[re_str.find('['): -1]
-        return f"{self.P['RegExp']}('{re_str}')"
+        return f"{self.P['RegExp']}({repr(re_str)})"
 
 
     def on_range_chain(self, node) -> Node:
@@ -3660,11 +3672,13 @@ class EBNFCompiler(Compiler):
 
     def extract_free_char(self, node: Node) -> str:
         assert len(node.content) == 1 or (node.content[0:1] == '\\' and len(node.content) == 2), node.content
+        if len(node.content) > 1:  return node.content  # already escaped
         bytestr = node.content.encode('unicode-escape')
         return bytestr.decode()
 
     def extract_character(self, node: Node) -> str:
-        hexcode = node.content
+        # other lead-ins than CH_LEADIN have not been removed by the AST-transformation
+        hexcode = node.children[-1].content if node.children else node.content
         if len(hexcode) > 4:
             assert len(hexcode) <= 8
             code = '\\U' + (8 - len(hexcode)) * '0' + hexcode
@@ -3681,7 +3695,7 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), f'/{arg}/'
 
     def on_character(self, node: Node) -> str:
-        return f"{self.P['RegExp']}('[{self.extract_character(node)}]')"
+        return f"{self.P['RegExp']}({repr('[' + self.extract_character(node) + ']')})"
         # return "RegExp('%s')" % self.extract_character(node)
 
 
-- 
2.43.0


From 61f5f549e0051c7ee34ee3f2e0fba47256550aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:31 +0000
Subject: [PATCH 81/91] fix: groups and braces may start with a counted element
 or a hexadecimal character

---
 DHParser/ebnf.py                   | 8 ++++----
 DHParser/ebnf_flavors/heuristic.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 658c2bd..02186c1 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -451,8 +451,8 @@ class ConfigurableEBNFGrammar(Grammar):
         counted    = countable range | countable TIMES~ multiplier | multiplier TIMES~ §countable
 
         range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
-        no_range   = !multiplier | &multiplier TIMES   # should that be &(multiplier TIMES)??
-        multiplier = /\d+/~
+        no_range   = !multiplier | &(multiplier TIMES)
+        multiplier = /\d+(?!x)/~                        # but not the lead-in 0x of a character
 
 
         #: leaf-elements
@@ -555,7 +555,7 @@ class ConfigurableEBNFGrammar(Grammar):
     EOF = Drop(SmartRE(f'(?!.)', '!/./'))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
+    multiplier = SmartRE(f'(\\d+(?!x))(?:{WSP_RE__})', '/\\d+(?!x)/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])',
@@ -579,7 +579,7 @@ class ConfigurableEBNFGrammar(Grammar):
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument),
                     Series(Text(")"), dwsp__), mandatory=3)
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), TIMES)))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, TIMES))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression,
                    ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_OPEN, dwsp__, multiplier, Option(Series(RNG_DELIM, dwsp__, multiplier)), RNG_CLOSE, dwsp__)
diff --git a/DHParser/ebnf_flavors/heuristic.py b/DHParser/ebnf_flavors/heuristic.py
index 1ab926a..a362fe1 100755
--- a/DHParser/ebnf_flavors/heuristic.py
+++ b/DHParser/ebnf_flavors/heuristic.py
@@ -207,8 +207,8 @@ class HeuristicEBNFGrammar(Grammar):
         counted    = countable range | countable :TIMES~ multiplier | multiplier :TIMES~ §countable
 
         range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
-        no_range   = !multiplier | &multiplier :TIMES
-        multiplier = /\d+/~
+        no_range   = !multiplier | &(multiplier :TIMES)
+        multiplier = /\d+(?!x)/~                        # but not the lead-in 0x of a character
 
 
         #: leaf-elements
@@ -357,7 +357,7 @@ class HeuristicEBNFGrammar(Grammar):
                       Option(Pop(RE_LEADOUT, match_func=optional_last_value))))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
+    multiplier = SmartRE(f'(\\d+(?!x))(?:{WSP_RE__})', '/\\d+(?!x)/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])',
@@ -383,7 +383,7 @@ class HeuristicEBNFGrammar(Grammar):
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument),
                     Series(Text(")"), dwsp__))
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), Retrieve(TIMES))))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, Retrieve(TIMES)))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression,
                    ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_BRACE, dwsp__, multiplier, Option(Series(Retrieve(RNG_DELIM), dwsp__, multiplier)),
-- 
2.43.0


From 611f6a2777c5e4719c1c726e88efc7b1afca37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:33 +0000
Subject: [PATCH 82/91] fix: literals with escaped or both kinds of quotation
 marks compile to what they denote

---
 DHParser/ebnf.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 02186c1..9c0277e 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3508,10 +3508,23 @@ class EBNFCompiler(Compiler):
         left = self.WSPC_PARSER(force) if 'left' in lws else ''
         right = self.WSPC_PARSER(force) if 'right' in lws else ''
         # content = escape_ctrl_chars(node.content)
-        content = node.content
-        if (content[:1] + content[-1:]) == "’’":
-            content = '"' + content[1:-1].replace('"', r'\"') + '"'
-        return content, left, right
+        q = node.content[:1]
+        return ''.join(['"' if q == "’" else q, self.literal_text(node),
+                        '"' if q == "’" else q]), left, right
+
+    @staticmethod
+    def literal_text(node: Node) -> str:
+        """Returns the text denoted by a literal- or plaintext-node, i.e. its content without
+        the delimiters and with escaped delimiters unescaped."""
+        delimiter = node.content[-1:]
+        return node.content[1:-1].replace('\\' + delimiter, delimiter)
+
+    @staticmethod
+    def quote_text(text: str, quote: str) -> str:
+        """Returns Python-code of a string-literal for text, delimited by quote."""
+        code = repr(text)
+        escaped = code[1:-1] if code[0] == '"' else code[1:-1].replace(r"\'", "'")
+        return ''.join([quote, escaped.replace(quote, '\\' + quote), quote])
 
     def whitespace_rx(self, ws: str) -> str:
         # TODO: doctests required
@@ -3566,12 +3579,14 @@ class EBNFCompiler(Compiler):
         if 'literal' in self.directives.optimizations and (left and right):
             q = content[0]
             literal = self.literal_rx(content[1:-1], left, right, escape_braces=True)
-            rxp = ''.join(['fr', q, literal, q])
-            rxp = wrap_str_literal(rxp, 80, 12 if self.drop_on(DROP_STRINGS) else 7)
-            content = escape_ctrl_chars(content)
-            content = ''.join([q, '\\', content[:-1], '\\', content[-1], q])
+            if q in literal or literal.find('\n') >= 0:
+                rxp = 'f' + repr(literal)
+            else:
+                rxp = ''.join(['fr', q, literal, q])
+                rxp = wrap_str_literal(rxp, 80, 12 if self.drop_on(DROP_STRINGS) else 7)
+            content = self.quote_text(self.quote_text(content[1:-1], q), q)
             return f"{self.P['SmartRE']}({rxp}, {content})"
-        content = escape_ctrl_chars(content)
+        content = self.quote_text(content[1:-1], content[0])
         center = self.TEXT_PARSER(content, self.drop_on(DROP_STRINGS))
         if left or right:
             args = ", ".join(item for item in (left, center, right) if item)
@@ -3580,16 +3595,12 @@ class EBNFCompiler(Compiler):
 
 
     def smartRE_plaintext(self, node: Node) -> Tuple[str, str]:
-        pattern = self.text_rx(node.content[1:-1], DROP_BACKTICKED)
+        pattern = self.text_rx(self.literal_text(node), DROP_BACKTICKED)
         return pattern.replace('{', '{{').replace('}', '}}'), node.content
 
     def on_plaintext(self, node: Node) -> str:
-        tk = escape_ctrl_chars(node.content)
-        rpl = '"' if tk.find('"') < 0 else "'" if tk.find("'") < 0 else ''
-        if rpl:
-            tk = rpl + tk[1:-1] + rpl
-        else:
-            tk = rpl + tk.replace('"', r'\"')[1:-1] + rpl
+        text = self.literal_text(node)
+        tk = self.quote_text(text, "'" if '"' in text and "'" not in text else '"')
         return self.TEXT_PARSER(tk, self.drop_on(DROP_BACKTICKED))
 
 
-- 
2.43.0


From 4c43ce649f796f72cfee1b1bf722a1bd5d741283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:33 +0000
Subject: [PATCH 83/91] fix: optimization rearrange_alternative takes effect on
 its own

---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 9c0277e..771e888 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -844,7 +844,7 @@ def rearrange_expression(path: Path):
         return   # expression node has already been replaced...
     globals = get_globals(path)
     optimizations = globals['optimizations']
-    if not any(opt in optimizations for opt in ('rearrange_anternative', 'alternative')):
+    if not any(opt in optimizations for opt in ('rearrange_alternative', 'alternative')):
         return
     lws = globals['literalws']
     if lws not in ('left', 'right', 'both'):
-- 
2.43.0


From 904cf9d909ee5ca0e88d742715e5a7a700655016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:33 +0000
Subject: [PATCH 84/91] fix: nested unnamed groups are neutralized without
 duplicating their content

---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 771e888..d66a318 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1492,7 +1492,7 @@ def neutralize_unnamed_groups(rxp: str) -> str:
     r"""Replaces unnamed groups by non-catching groups, i.e. (\w+) -> (?:w+)"""
     a = 0
     al = []
-    for b, _ in matching_brackets(rxp, "(", ")", is_regex=True):
+    for b, _ in sorted(matching_brackets(rxp, "(", ")", is_regex=True)):
         if rxp[b + 1] != "?":
             al.append(rxp[a:b + 1])
             a = b + 1
-- 
2.43.0


From 33eda13b30ced141a3f2806f8b923977ab9e1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 85/91] fix: macro expansions may be parsers of different
 classes

---
 DHParser/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 3c05dc8..b51d3b0 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1742,10 +1742,10 @@ class Grammar:
         assert parser is not PARSER_PLACEHOLDER
         if parser not in self.all_parsers__:
             if parser.pname:
-                # prevent overwriting instance variables or parsers of a different class
+                # prevent overwriting instance variables
                 if parser.pname in self.__dict__:
-                    assert (isinstance(self.__dict__[parser.pname], Forward)
-                            or isinstance(self.__dict__[parser.pname], parser.__class__)), \
+                    # (expansions of the same macro may be parsers of different classes)
+                    assert isinstance(self.__dict__[parser.pname], Parser), \
                         ('Cannot add parser "%s" because a field with the same name '
                          'already exists in grammar object: %s!'
                          % (parser.pname, str(self.__dict__[parser.pname])))
-- 
2.43.0


From c972766e1626ee4b85874f0a4393ddbf5e279eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 86/91] fix: directive ignorecase applies to characters and
 character ranges, too

---
 DHParser/ebnf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index d66a318..eb19672 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3662,7 +3662,7 @@ class EBNFCompiler(Compiler):
 
     def on_char_range(self, node) -> str:
         re_str, _ = self.smartRE_char_range(node)
-        re_str = re_str[re_str.find('['): -1]
+        re_str = self.check_rx(node, re_str[re_str.find('['): -1])
         return f"{self.P['RegExp']}({repr(re_str)})"
 
 
@@ -3706,7 +3706,8 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), f'/{arg}/'
 
     def on_character(self, node: Node) -> str:
-        return f"{self.P['RegExp']}({repr('[' + self.extract_character(node) + ']')})"
+        re_str = self.check_rx(node, '[' + self.extract_character(node) + ']')
+        return f"{self.P['RegExp']}({repr(re_str)})"
         # return "RegExp('%s')" % self.extract_character(node)
 
 
-- 
2.43.0


From 37315c14d5d1f8aface303c445a92d481f25aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 87/91] fix: verbose regular expressions are not merged with
 other expressions

---
 DHParser/ebnf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index eb19672..886d268 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3606,6 +3606,8 @@ class EBNFCompiler(Compiler):
 
     def smartRE_regexp(self, node: Node) -> Tuple[str, str]:
         arg = node.content
+        if arg.find('\n') >= 0:
+            raise ValueError('Verbose regular expressions cannot be merged with other expressions!')
         if arg.find('(?P<') < 0:
             arg = neutralize_unnamed_groups(arg)
         pattern = f'(?:{arg})' if self.drop_on(DROP_REGEXP) else f'({arg})'
-- 
2.43.0


From 0455c64f7dc7a6dbdebc0c00b08b5793dc17fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 88/91] fix: regular expressions with back-references are not
 merged with other expressions

---
 DHParser/ebnf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 886d268..add2e63 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3608,6 +3608,8 @@ class EBNFCompiler(Compiler):
         arg = node.content
         if arg.find('\n') >= 0:
             raise ValueError('Verbose regular expressions cannot be merged with other expressions!')
+        if re.search(r'(?<!\\)(?:\\\\)*\\[1-9]', arg):
+            raise ValueError('Back-references would refer to the groups of other expressions!')
         if arg.find('(?P<') < 0:
             arg = neutralize_unnamed_groups(arg)
         pattern = f'(?:{arg})' if self.drop_on(DROP_REGEXP) else f'({arg})'
-- 
2.43.0


From 90a09ad394577e885d9db5e831b90b21de035a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:39 +0000
Subject: [PATCH 89/91] fix: unit_to_config() wrote texts that end with a
 quotation mark so that they could not be read any more

---
 DHParser/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 6411b99..c56572b 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -340,14 +340,14 @@ def format_casestr(s: str) -> str:
     """Adds quotation marks and possibly indentation to a text-case string."""
     if s.find("\n") >= 0:
         for q in ('"""', "'''"):
-            if s.find(q) < 0:
+            if s.find(q) < 0 and s[-1:] != q[-1:]:
                 l = s.split('\n')
                 for i in range(1, len(l)):
                     l[i] = "    " + l[i]
                 return ''.join((q, '\n'.join(l), q))
     else:
         for q in ('"', "'", '"""', "'''"):
-            if s.find(q) < 0:
+            if s.find(q) < 0 and s[-1:] != q[-1:]:
                 return ''.join((q, s, q))
     raise ValueError(
         f"Cannot add quotation marks to {s}, because all possible single or tripple "
-- 
2.43.0


From fd26f73f521c3d5f881da426bc9483e81c0b1b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:42 +0000
Subject: [PATCH 90/91] fix: merge_test_units() lost the connection between
 renamed match-tests and their results

---
 DHParser/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index c56572b..de3703c 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -331,7 +331,7 @@ def merge_test_units(*test_units) -> Dict:
                             nr += 1
                         names = names + str(nr)
                         if typ.lower() == 'match':
-                            name_subst[orig] = names
+                            name_subst[symbol][orig] = names
                     merged[symbol][typ][names] = case
     return merged
 
-- 
2.43.0


From df39d134e815a1ef3c02e258b93ddb849af71993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:47 +0000
Subject: [PATCH 91/91] fix: grammar_unit() crashed on or missed fatal errors
 of intermediate stages

---
 DHParser/testing.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index de3703c..92238a4 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -45,7 +45,7 @@ assert sys.version_info >= (3, 6, 0)
 OrderedDict = dict
 
 from DHParser.configuration import get_config_value, set_config_value
-from DHParser.error import Error, is_error, PARSER_LOOKAHEAD_MATCH_ONLY, \
+from DHParser.error import Error, is_error, is_fatal, PARSER_LOOKAHEAD_MATCH_ONLY, \
     PARSER_LOOKAHEAD_FAILURE_ONLY, MANDATORY_CONTINUATION_AT_EOF, \
     MANDATORY_CONTINUATION_AT_EOF_NON_ROOT, CAPTURE_STACK_NOT_EMPTY_NON_ROOT_ONLY, \
     AUTOCAPTURED_SYMBOL_NOT_CLEARED_NON_ROOT, PYTHON_ERROR_IN_TEST, RESUME_NOTICE
@@ -819,7 +819,9 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                     add_errors_to_errata([err], '?', test_name, parser_name)
                     targets = dict()
                 t_errors: Dict[str, List[Error]] = {}
-                for stage in list(transformation_stages) + [t for t in targets if t in show]:
+                reached = [t for t in targets if t in show]
+                missed = [t for t in show if t not in targets]
+                for stage in list(transformation_stages) + reached + missed:
                     try:
                         tests.setdefault(f'__{stage}__', {})[test_name] = targets[stage][0]
                         t_errors[stage] = [e for e in targets[stage][1] if e not in old_errors]
@@ -828,8 +830,11 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                         add_errors_to_errata(t_errors[stage], stage, test_name, parser_name)
                     except KeyError as ke:
                         # ignore key errors in case they are only consequential errors
-                        # of earlier errors
-                        if err.code != PYTHON_ERROR_IN_TEST:
+                        # of earlier errors, but report fatal errors of stages in between
+                        fatal = {e for _, msgs in targets.values() for e in msgs if is_fatal(e.code)}
+                        add_errors_to_errata(list(fatal - old_errors), stage, test_name, parser_name)
+                        old_errors |= fatal
+                        if err is None and not fatal and stage in transformation_stages:
                             raise ke
                 # keep test-items, so that the order of the items is the same as
                 # in which they are processed in the pipeline.
-- 
2.43.0

