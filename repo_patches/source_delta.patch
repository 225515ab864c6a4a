From 82fca6ece678275b00bb63cacef8edf83b871981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:14 +0000
Subject: [PATCH 01/47] fix: report runtime errors at the template line that
 raised them

Line increments in co_lnotab are signed since Python 3.6, one generated
line can span several physical lines, functions and blocks do not follow
__main__ in line order, and functions nested in the generated code were
left pointing at the generated source.
---
 kajiki/lnotab.py       | 28 +++++++++++++++-----
 kajiki/template.py     | 60 ++++++++++++++++++++++++------------------
 kajiki/xml_template.py |  5 +++-
 3 files changed, 60 insertions(+), 33 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index edffbd8..f6b1d51 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -46,11 +46,18 @@ increment is < 256.  So, in the example above, assemble_lnotab (it used
 to be called com_set_lineno) should not (as was actually done until 2.2)
 expand 300, 300 to 255, 255, 45, 45,
             but to 255,   0, 45, 255, 0, 45.
+
+Since Python 3.6 the line increments are *signed* bytes (-128..127), so line
+numbers may also decrease; the bytecode increments are still unsigned.
 '''
 
 from __future__ import (absolute_import, division, print_function)
+from sys import version_info
 from nine import IS_PYTHON2
 
+# Whether the line number increments are signed bytes.
+SIGNED_LINES = version_info >= (3, 6)
+
 if IS_PYTHON2:
     int2byte = chr
     byte2int = ord
@@ -64,23 +71,27 @@ else:
 
 def lnotab(pairs, first_lineno=0):
     """Yields byte integers representing the pairs of integers passed in."""
-    assert first_lineno <= pairs[0][1]
+    max_line = 127 if SIGNED_LINES else 255
     cur_byte, cur_line = 0, first_lineno
     for byte_off, line_off in pairs:
         byte_delta = byte_off - cur_byte
         line_delta = line_off - cur_line
         assert byte_delta >= 0
-        assert line_delta >= 0
+        assert SIGNED_LINES or line_delta >= 0
         while byte_delta > 255:
             yield 255  # byte
             yield 0   # line
             byte_delta -= 255
         yield byte_delta
-        while line_delta > 255:
-            yield 255  # line
+        while line_delta > max_line:
+            yield max_line  # line
+            yield 0   # byte
+            line_delta -= max_line
+        while line_delta < -128:
+            yield 128  # line: -128 as a signed byte
             yield 0   # byte
-            line_delta -= 255
-        yield line_delta
+            line_delta += 128
+        yield line_delta & 255
         cur_byte, cur_line = byte_off, line_off
 
 
@@ -91,7 +102,10 @@ def lnotab_string(pairs, first_lineno=0):
 def byte_pairs(lnotab):
     """Yield pairs of integers from a string."""
     for i in range(0, len(lnotab), 2):
-        yield byte2int(lnotab[i]), byte2int(lnotab[i + 1])
+        line = byte2int(lnotab[i + 1])
+        if SIGNED_LINES and line > 127:
+            line -= 256
+        yield byte2int(lnotab[i]), line
 
 
 def lnotab_numbers(lnotab, first_lineno=0):
diff --git a/kajiki/template.py b/kajiki/template.py
index 29f7555..66d90f6 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -314,10 +314,12 @@ def from_ir(ir_node, base_globals=None):
     py_text = '\n'.join(map(str, py_lines))
     py_linenos = []
     last_lineno = 0
-    for i, l in enumerate(py_lines):
-        lno = max(last_lineno, l._lineno or 0)
-        py_linenos.append((i + 1, lno))
-        last_lineno = lno
+    for l in py_lines:
+        # Generated lines that come from no template line belong to the
+        # previous one. A multiline expression spans several Python lines.
+        last_lineno = l._lineno or last_lineno
+        for _ in range(str(l).count('\n') + 1):
+            py_linenos.append((len(py_linenos) + 1, last_lineno))
     dct = dict(kajiki=kajiki)
     try:
         exec(py_text, dct)
@@ -381,33 +383,41 @@ class TplFunc(object):
     def annotate_lnotab(self, filename, py_to_tpl, py_to_tpl_dct):
         if not py_to_tpl:
             return
-        code = self._func.__code__
-        new_lnotab_numbers = []
-        for bc_off, py_lno in lnotab.lnotab_numbers(
-                code.co_lnotab, code.co_firstlineno):
-            tpl_lno = py_to_tpl_dct.get(py_lno, None)
-            if tpl_lno is None:
-                print('ERROR LOOKING UP LINE #%d' % py_lno)
-                continue
-            new_lnotab_numbers.append((bc_off, tpl_lno))
-        if not new_lnotab_numbers:
-            return
-        new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
-        new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
-        new_code = patch_code_file_lines(
-            code, filename, new_firstlineno, new_lnotab)
-        self._func.__code__ = new_code
-        return
+        self._func.__code__ = annotate_code(
+            self._func.__code__, filename, py_to_tpl_dct)
+
+
+def annotate_code(code, filename, py_to_tpl_dct):
+    """Returns a copy of `code`, and of the functions nested in it,
+    that refers to template lines instead of generated Python lines.
+    """
+    new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
+    new_lnotab_numbers = []
+    last_lineno = new_firstlineno
+    for bc_off, py_lno in lnotab.lnotab_numbers(
+            code.co_lnotab, code.co_firstlineno):
+        tpl_lno = py_to_tpl_dct.get(py_lno, last_lineno)
+        if not lnotab.SIGNED_LINES:
+            tpl_lno = max(tpl_lno, last_lineno)
+        new_lnotab_numbers.append((bc_off, tpl_lno))
+        last_lineno = tpl_lno
+    new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
+    new_consts = tuple(
+        annotate_code(c, filename, py_to_tpl_dct)
+        if isinstance(c, types.CodeType) else c
+        for c in code.co_consts)
+    return patch_code_file_lines(
+        code, filename, new_firstlineno, new_lnotab, new_consts)
 
 
 if IS_PYTHON2:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         return types.CodeType(code.co_argcount,
                               code.co_nlocals,
                               code.co_stacksize,
                               code.co_flags,
                               code.co_code,
-                              code.co_consts,
+                              consts,
                               code.co_names,
                               code.co_varnames,
                               filename.encode('utf-8'),
@@ -417,7 +427,7 @@ if IS_PYTHON2:
                               code.co_freevars,
                               code.co_cellvars)
 else:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         code_args = [code.co_argcount]
         if version_info >= (3, 8):
             code_args.append(code.co_posonlyargcount)
@@ -427,7 +437,7 @@ else:
             code.co_stacksize,
             code.co_flags,
             code.co_code,
-            code.co_consts,
+            consts,
             code.co_names,
             code.co_varnames,
             filename,
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8615804..238fffa 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -337,6 +337,7 @@ class _Compiler(object):
         if not body:
             body = [ir.PassNode()]
         self.functions[decl] = body
+        self.function_lnos[decl] = node.lineno
         if self.is_child:
             parent_block = 'parent.' + fname
             body.insert(0,
@@ -357,7 +358,9 @@ class _Compiler(object):
         if self.in_def:
             yield ir.InnerDefNode(node.getAttribute('function'), *body)
         else:
-            self.functions[node.getAttribute('function')] = body
+            decl = node.getAttribute('function')
+            self.functions[decl] = body
+            self.function_lnos[decl] = node.lineno
 
     @annotate
     def _compile_call(self, node):
-- 
2.43.0


From 307301647a20524d56a111eb73360216db249f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:16 +0000
Subject: [PATCH 02/47] fix: do not scan for expressions inside an expression
 or tag

A $ inside a string of a ${...} expression made XML templates repeat part
of the text and text templates fail with an AssertionError.
---
 kajiki/text.py         | 3 +++
 kajiki/xml_template.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1cbe583..0e4e8f9 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -78,6 +78,9 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                # Part of an expression or tag that has already been consumed.
+                continue
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 238fffa..25222ae 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -516,6 +516,9 @@ class _TextCompiler(object):
         source = self.source
         for mo in self._re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                # Part of an expression that has already been consumed.
+                continue
             if start > self.pos:
                 yield self.text(source[self.pos:start])
             self.pos = start
-- 
2.43.0


From 3d178db3a218a83631534e2e22f41afb70233a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:55 +0000
Subject: [PATCH 03/47] fix: keep track of line numbers in text templates

Tokens carried the line where they end, newlines swallowed in front of a
tag were not counted, and tags had no line number at all.
---
 kajiki/text.py | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 0e4e8f9..6a32e54 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -118,42 +118,40 @@ class _Scanner(object):
         return self._pos
 
     def _set_pos(self, value):
-        assert value >= getattr(self, '_pos', 0)
+        old = getattr(self, '_pos', 0)
+        assert value >= old
+        self.lineno += self.source.count('\n', old, value)
         self._pos = value
     pos = property(_get_pos, _set_pos)
 
     def text(self, text):
-        self.lineno += text.count('\n')
         return _Text(self.filename, self.lineno, text)
 
     def expr(self, text):
-        self.lineno += text.count('\n')
         return _Expr(self.filename, self.lineno, text)
 
     def tag(self, tagname, body):
-        tag = _Tag(self.filename, self.lineno, tagname, body)
-        self.lineno += tag.text.count('\n')
-        return tag
+        return _Tag(self.filename, self.lineno, tagname, body)
 
     def _get_tag_bare(self, tagname):
         end = self.source.find('\n', self.pos)
         if end == -1:
             end = len(self.source)
-        body = self.source[self.pos:end]
-        self.lineno += 1
+        tag = self.tag(tagname, self.source[self.pos:end])
         self.pos = end + 1
-        return self.tag(tagname, body)
+        return tag
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
         assert end > 0
         body = self.source[self.pos:end]
+        ljust = body.endswith('-')
+        tag = self.tag(tagname, body[:-1] if ljust else body)
         self.pos = end + 2
-        if body.endswith('-'):
-            body = body[:-1]
+        if ljust:
             while self.source[self.pos] in ' \t':
                 self.pos += 1
-        return self.tag(tagname, body)
+        return tag
 
     def _get_braced_expr(self):
         try:
@@ -162,9 +160,9 @@ class _Scanner(object):
             end = self.pos + sum([se.offset] + [len(line) + 1
                                                 for idx, line in enumerate(self.source[self.pos:].splitlines())
                                                 if idx < se.lineno - 1])
-            text = self.source[self.pos:end - 1]
+            expr = self.expr(self.source[self.pos:end - 1])
             self.pos = end
-            return self.expr(text)
+            return expr
 
 
 class _Parser(object):
@@ -172,6 +170,7 @@ class _Parser(object):
         self.tokenizer = tokenizer
         self.functions = defaultdict(list)
         self.functions['__main__()'] = []
+        self.function_lnos = {}
         self.mod_py = []  # module-level python blocks
         self.iterator = iter(self.tokenizer)
         self.autoescape = autoescape
@@ -181,7 +180,11 @@ class _Parser(object):
     def parse(self):
         body = list(self._parse_body())
         self.functions['__main__()'] = body[:-1]
-        defs = [ir.DefNode(k, *v) for k, v in iteritems(self.functions)]
+        defs = []
+        for k, v in iteritems(self.functions):
+            node = ir.DefNode(k, *v)
+            node.lineno = self.function_lnos.get(k)
+            defs.append(node)
         return ir.TemplateNode(self.mod_py, defs)
 
     def text(self, token):
@@ -213,7 +216,11 @@ class _Parser(object):
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname)
-                    yield parser(token)
+                    node = parser(token)
+                    if node is not None:
+                        node.filename = token.filename
+                        node.lineno = token.lineno
+                    yield node
                 else:
                     msg = 'Parse error: %r unexpected' % token
                     assert False, msg
@@ -228,7 +235,9 @@ class _Parser(object):
         if self._in_def:
             return ir.InnerDefNode(token.body, *body[:-1])
         else:
-            self.functions[token.body.strip()] = body[:-1]
+            decl = token.body.strip()
+            self.functions[decl] = body[:-1]
+            self.function_lnos[decl] = token.lineno
             return None
 
     def _parse_call(self, token):
@@ -308,6 +317,7 @@ class _Parser(object):
         decl = fname + '()'
         body = list(self._parse_body('end'))[:-1]
         self.functions[decl] = body
+        self.function_lnos[decl] = token.lineno
         if self._is_child:
             parent_block = 'parent.' + fname
             body.insert(0,
-- 
2.43.0


From f6e6bd9ccaa519d768c37cd35792ba723669e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:11 +0000
Subject: [PATCH 04/47] fix: report invalid expressions at their line of the
 XML template

---
 kajiki/xml_template.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 25222ae..4e9bc12 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -546,7 +546,9 @@ class _TextCompiler(object):
         def py_expr(end=None):
             return self.source[self.pos:end]
         try:
-            self.pos += len(py_expr()) - len(py_expr().lstrip())
+            spaces = len(py_expr()) - len(py_expr().lstrip())
+            self.lineno += py_expr(self.pos + spaces).count('\n')
+            self.pos += spaces
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
             end = sum(
@@ -559,7 +561,7 @@ class _TextCompiler(object):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-                    doc=self.doc, filename=self.filename, linen=self.lineno)
+                    doc=self.doc, filename=self.filename, linen=self.real_lineno)
             else:
                 # if the expression ends in a } then it may be valid
                 try:
@@ -568,14 +570,14 @@ class _TextCompiler(object):
                     # for example + operators with a single operand
                     raise XMLTemplateCompileError(
                         "Kajiki detected an invalid python expression `%s`" % py_expr()[:-1],
-                        doc=self.doc, filename=self.filename, linen=self.lineno)
+                        doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
             py_text = py_expr(end - 1)
             self.pos = end
             return self.expr(py_text)
         else:
             raise XMLTemplateCompileError("Braced expression not terminated",
-                                          doc=self.doc, filename=self.filename, linen=self.lineno)
+                                          doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
 
 class _Parser(sax.ContentHandler):
-- 
2.43.0


From 7c8e7c28a04f58f96f33f50dc592ab161e99f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:35 +0000
Subject: [PATCH 05/47] fix: find the end of multiline expressions that contain
 Unicode line separators

---
 kajiki/text.py         | 2 +-
 kajiki/xml_template.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 6a32e54..0ace922 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -158,7 +158,7 @@ class _Scanner(object):
             compile(self.source[self.pos:], '', 'eval')
         except SyntaxError as se:
             end = self.pos + sum([se.offset] + [len(line) + 1
-                                                for idx, line in enumerate(self.source[self.pos:].splitlines())
+                                                for idx, line in enumerate(self.source[self.pos:].split('\n'))
                                                 if idx < se.lineno - 1])
             expr = self.expr(self.source[self.pos:end - 1])
             self.pos = end
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 4e9bc12..54f74b4 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -554,7 +554,7 @@ class _TextCompiler(object):
             end = sum(
                 [self.pos, se.offset] +
                 [len(line) + 1
-                 for idx, line in enumerate(py_expr().splitlines())
+                 for idx, line in enumerate(py_expr().split('\n'))
                  if idx < se.lineno - 1]
             )
             if py_expr(end)[-1] != '}':
-- 
2.43.0


From 1770636500c551f7b8b21decfeda85bedfae9631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:02 +0000
Subject: [PATCH 06/47] fix: keep line numbers after a DOCTYPE that spans
 several lines

---
 kajiki/xml_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 54f74b4..fe83dff 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -610,8 +610,10 @@ class _Parser(sax.ContentHandler):
         self._filename = filename
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
-        # Use our own DTD just for XML parsing
-        self._source = source[:position] + self.DTD + source[position:]
+        # Use our own DTD just for XML parsing, keeping the line numbers
+        newlines = '\n' * self._doc._dtd.count('\n')
+        self._source = (source[:position] + self.DTD + newlines +
+                        source[position:])
         self._cdata_stack = []
 
     def parse(self):
-- 
2.43.0


From bc5b7a2b969a0e2bf3e81c78bc8b926060cf3046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 07/47] fix: accept an XML declaration in templates without a
 DOCTYPE

---
 kajiki/xml_template.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index fe83dff..55d45ac 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -588,6 +588,7 @@ class _Parser(sax.ContentHandler):
     then to Python Code.
     """
     DTD = '<!DOCTYPE kajiki SYSTEM "kajiki.dtd">'
+    XML_DECLARATION = re.compile(r'(<\?xml\s.*?\?>)?', re.DOTALL)
 
     def __init__(self, filename, source):
         """XML defines only a few entities; HTML defines many more.
@@ -610,6 +611,9 @@ class _Parser(sax.ContentHandler):
         self._filename = filename
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
+        if not self._doc._dtd:
+            # Nothing can precede an XML declaration, not even our own DTD
+            position = self.XML_DECLARATION.match(source).end()
         # Use our own DTD just for XML parsing, keeping the line numbers
         newlines = '\n' * self._doc._dtd.count('\n')
         self._source = (source[:position] + self.DTD + newlines +
-- 
2.43.0


From 8e08147a6b4d09c4341e27865a52b602d5c51cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 08/47] fix: report unknown entities as XMLTemplateParseError

---
 kajiki/xml_template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 55d45ac..266c5c4 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -692,6 +692,8 @@ class _Parser(sax.ContentHandler):
             # itself, and we don't want to maintain a separate diff.
             # So just ensure we ask for entities always recorded with trailing semicolon.
             name += ';'
+        if name not in html5:
+            raise SAXParseException('undefined entity', None, self._parser)
         return self.characters(html5[name])
 
     def startElementNS(self, name, qname, attrs):  # pragma no cover
-- 
2.43.0


From c3dfb8f04bb7347cf8f970925969716fad424e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:33 +0000
Subject: [PATCH 09/47] fix: report a ${ at the end of the text as
 XMLTemplateCompileError

---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 266c5c4..0593309 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -557,7 +557,7 @@ class _TextCompiler(object):
                  for idx, line in enumerate(py_expr().split('\n'))
                  if idx < se.lineno - 1]
             )
-            if py_expr(end)[-1] != '}':
+            if not py_expr(end).endswith('}'):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-- 
2.43.0


From 4cf8390c4aab8c9acebcfd0de9409d1f674964a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:48 +0000
Subject: [PATCH 10/47] fix: do not escape the Python code of expressions in
 XML text

The text was escaped before looking for expressions in it, so that
${a > b} was a syntax error and "&amp;" in an expression meant "&amp;amp;".
---
 kajiki/xml_template.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 0593309..6964dfa 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -19,7 +19,7 @@ from . import ir
 from . import template
 from .ddict import defaultdict
 from .doctype import DocumentTypeDeclaration, extract_dtd
-from .entities import html5, unescape
+from .entities import html5
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
@@ -246,15 +246,14 @@ class _Compiler(object):
                     # Special behaviour for <script>, <style> tags:
                     if self.mode == 'xml':  # Start escaping
                         yield ir.TextNode('/*<![CDATA[*/')
-                    # Need to unescape the contents of these tags
+                    # The contents of these tags are not escaped
                     for child in node.childNodes:
                         # CDATA for scripts and styles are automatically managed.
                         if getattr(child, '_cdata', False):
                             continue
                         assert isinstance(child, dom.Text)
+                        child.escaped = False
                         for x in self._compile_text(child):
-                            if child.escaped:  # If user declared CDATA no escaping happened.
-                                x.text = unescape(x.text)
                             yield x
                     if self.mode == 'xml':  # Finish escaping
                         yield ir.TextNode('/*]]>*/')
@@ -382,7 +381,8 @@ class _Compiler(object):
             # script and style should always be untranslatable.
             kwargs['node_type'] = ir.TextNode
 
-        tc = _TextCompiler(self.filename, node.data, node.lineno, compiler_instance=self, **kwargs)
+        tc = _TextCompiler(self.filename, node.data, node.lineno, compiler_instance=self,
+                           escape=node.escaped, **kwargs)
         for x in tc:
             yield x
 
@@ -474,7 +474,8 @@ class _TextCompiler(object):
     instances and :class:`.ir.TextNode` instances accordingly.
     """
     def __init__(self, filename, source, lineno,
-                 node_type=make_text_node, in_html_attr=False, compiler_instance=None):
+                 node_type=make_text_node, in_html_attr=False, compiler_instance=None,
+                 escape=False):
         self.filename = filename
         self.source = source
         self.orig_lineno = lineno
@@ -484,9 +485,11 @@ class _TextCompiler(object):
         self.in_html_attr = in_html_attr
         self.compiler_instance = compiler_instance
         self.doc = self.compiler_instance.doc
+        self.escape = escape
 
     def text(self, text):
-        node = self.node_type(text)
+        # Expressions are Python code, only the text around them is escaped.
+        node = self.node_type(sax.saxutils.escape(text) if self.escape else text)
         node.lineno = self.real_lineno
         self.lineno += text.count('\n')
         return node
@@ -667,12 +670,10 @@ class _Parser(sax.ContentHandler):
         assert name == popped.tagName
 
     def characters(self, content):
-        should_escape = not self._cdata_stack
-        if should_escape:
-            content = sax.saxutils.escape(content)
         node = self._doc.createTextNode(content)
         node.lineno = self._parser.getLineNumber()
-        node.escaped = should_escape
+        # Text needs escaping in the output unless user declared CDATA.
+        node.escaped = not self._cdata_stack
         self._els[-1].appendChild(node)
 
     def processingInstruction(self, target, data):
-- 
2.43.0


From 723aeb4cf8563772bb61a68a7aa275ef9aa59db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 11/47] fix: allow directives with an empty body

An empty py:if, py:for, py:case, py:else or py:call (or its text template
equivalent) was compiled to invalid Python.
---
 kajiki/ir.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 9163723..ebbe877 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -52,13 +52,21 @@ class HierNode(Node):
         for x in optimize(flattener(map(flattener, self.body))):
             yield x
 
-    def __iter__(self):
-        yield self
+    def block_iter(self):
         yield IndentNode()
+        is_empty = True
         for x in self.body_iter():
             yield x
+            is_empty = False
+        if is_empty:  # In Python, a block without a body is a SyntaxError.
+            yield PassNode()  # Prevent creation of a block without a body
         yield DedentNode()
 
+    def __iter__(self):
+        yield self
+        for x in self.block_iter():
+            yield x
+
 
 class IndentNode(Node):
     pass
@@ -147,17 +155,6 @@ class DefNode(HierNode):
         yield self.line(self.prefix)
         yield self.line('def %s:' % (self.decl))
 
-    def __iter__(self):
-        yield self
-        yield IndentNode()
-        is_empty = True
-        for x in self.body_iter():
-            yield x
-            is_empty = False
-        if is_empty:  # In Python, a function without a body is a SyntaxError.
-            yield PassNode()  # Prevent creation of a function without a body
-        yield DedentNode()
-
 
 class InnerDefNode(DefNode):
     prefix = '@__kj__.flattener.decorate'
@@ -184,10 +181,8 @@ class CallNode(HierNode):
 
     def __iter__(self):
         yield self
-        yield IndentNode()
-        for x in self.body_iter():
+        for x in self.block_iter():
             yield x
-        yield DedentNode()
         yield self.CallTail(self.call)
 
 
-- 
2.43.0


From d0b609bb9c20d1dc8c49e4c974713463a558445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:27 +0000
Subject: [PATCH 12/47] fix: render template functions that contain no output
 as empty

---
 kajiki/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/util.py b/kajiki/util.py
index bf91401..3df530d 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -46,6 +46,10 @@ class flattener(object):
     def __init__(self, iterator):
         while type(iterator) == flattener:
             iterator = iterator.iterator
+        if iterator is None:
+            # Result of a template function that has nothing to output, and
+            # thus contains no yield statement.
+            iterator = iter(())
         self.iterator = iterator
 
     @classmethod
-- 
2.43.0


From 767f32c94137e4026656c64e81618aa2b16daa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 13/47] fix: inherit functions from all ancestors, not only the
 direct parent

---
 kajiki/template.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 66d90f6..ce762f3 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -59,6 +59,7 @@ class _Template(object):
     loader = None
     base_globals = None
     filename = None
+    _heir = None  # The template that extends this one
 
     def __init__(self, context=None):
         if context is None:
@@ -151,16 +152,12 @@ class _Template(object):
                 continue
             if not isinstance(v, TplFunc):
                 continue
-            if k not in self.__globals__:
-                self.__globals__[k] = v
-            if not hasattr(self, k):
-                def _(k=k):
-                    '''Capture the 'k' variable in a closure'''
-                    def trampoline(*a, **kw):
-                        global parent
-                        return getattr(parent, k)(*a, **kw)
-                    return trampoline
-                setattr(self, k, TplFunc(_()).bind_instance(self))
+            # They are also inherited by the templates that extend this one
+            heir = self
+            while heir is not None:
+                heir._inherit(k, v)
+                heir = heir._heir
+        p_inst._heir = self
         p_globals['child'] = self
         p_globals['local'] = p_inst
         p_globals['self'] = self.__globals__['self']
@@ -168,6 +165,16 @@ class _Template(object):
         self.__globals__['local'] = self
         return p_inst
 
+    def _inherit(self, k, v):
+        """Make the function `v` of an ancestor available as `k`."""
+        if k not in self.__globals__:
+            self.__globals__[k] = v
+        if not hasattr(self, k):
+            def trampoline(*a, **kw):
+                global parent
+                return getattr(parent, k)(*a, **kw)
+            setattr(self, k, TplFunc(trampoline).bind_instance(self))
+
     def _push_switch(self, expr):
         """Enter a ``py:switch`` block.
 
-- 
2.43.0


From e4b0f1c74c6dda5bb5f633286699577412d434e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:21 +0000
Subject: [PATCH 14/47] fix: make imports usable in a template that is being
 extended

---
 kajiki/template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index ce762f3..6a20693 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -208,7 +208,9 @@ class _Template(object):
         tpl_cls = self.loader.import_(name, is_fragment=True)
         if alias is None:
             alias = self.loader.default_alias_for(name)
-        r = gbls[alias] = tpl_cls(gbls)
+        # The template must be visible in the one that imports it,
+        # even when the latter is being extended.
+        r = gbls[alias] = self.__globals__[alias] = tpl_cls(gbls)
         return r
 
     def _escape(self, value):
-- 
2.43.0


From b2fc5b91ca22d33e21da3573271601cfcfb1950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:05 +0000
Subject: [PATCH 15/47] fix: an imported or included template keeps its own
 functions and names

Its functions, blocks, self and local were replaced by those of the
template importing it, so it could call the wrong function, could not
import anything itself, and could not extend another template.
---
 kajiki/template.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 6a20693..e0c131c 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -91,9 +91,21 @@ class _Template(object):
         self._switch_stack = []
         self._with_stack = []
         self.__globals__.update(context)
+        for k, v in self.__methods__:
+            if self._is_foreign(k):
+                self.__globals__[k] = getattr(self, k)
         self.__globals__['_'] = self.__globals__['gettext']
         self.__globals__['value_of'] = self.__globals__.get
 
+    def _is_foreign(self, name):
+        """Whether `name` is a function of the template that imports this one.
+
+        Those are available too, unless this template or the ones it extends
+        have a function of the same name.
+        """
+        v = self.__globals__.get(name)
+        return isinstance(v, TplFunc) and v is self._context.get(name)
+
     def __iter__(self):
         """We convert the chunk to string because it can be of any type
         -- after all, the template supports expressions such as ${x+y}.
@@ -143,7 +155,7 @@ class _Template(object):
         for k, v in iteritems(self.__globals__):
             if k == '__main__':
                 continue
-            if not isinstance(v, TplFunc):
+            if not isinstance(v, TplFunc) or self._is_foreign(k):
                 continue
             p_globals[k] = v
         # Find inherited funcs
@@ -167,7 +179,7 @@ class _Template(object):
 
     def _inherit(self, k, v):
         """Make the function `v` of an ancestor available as `k`."""
-        if k not in self.__globals__:
+        if k not in self.__globals__ or self._is_foreign(k):
             self.__globals__[k] = v
         if not hasattr(self, k):
             def trampoline(*a, **kw):
@@ -210,7 +222,12 @@ class _Template(object):
             alias = self.loader.default_alias_for(name)
         # The template must be visible in the one that imports it,
         # even when the latter is being extended.
-        r = gbls[alias] = self.__globals__[alias] = tpl_cls(gbls)
+        # It sees the globals of the latter, except those that refer to
+        # the template itself.
+        context = dict(gbls)
+        for k in ('self', 'local', 'parent', 'child', 'defined'):
+            context.pop(k, None)
+        r = gbls[alias] = self.__globals__[alias] = tpl_cls(context)
         return r
 
     def _escape(self, value):
-- 
2.43.0


From d894cc19574a69e1c4de0c7db36cda484eadb2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:08 +0000
Subject: [PATCH 16/47] fix: let file loaders import and include text templates

---
 kajiki/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 0ace922..0277106 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -51,7 +51,8 @@ _re_pattern = re.compile(_pattern, re.VERBOSE | re.IGNORECASE | re.MULTILINE)
 
 
 def TextTemplate(source=None, filename=None, autoescape=False,
-                 encoding='utf-8'):
+                 encoding='utf-8', is_fragment=False):
+    # Text has no DOCTYPE to leave out, *is_fragment* is there for the loaders.
     assert source or filename, "You must either provide a *source* argument " \
         "or a *filename* argument to TextTemplate()."
     if source is None:
-- 
2.43.0


From fb51c39cddf15d6022fd3b3b5d1b6e85cb04a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:38 +0000
Subject: [PATCH 17/47] fix: render literal() and function results as attribute
 values

py:attrs showed the repr of the object, and non-string literals failed.
---
 kajiki/template.py | 5 ++++-
 kajiki/util.py     | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index e0c131c..cd36972 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -269,7 +269,10 @@ class _Template(object):
                 if mode.startswith('html') and k in HTML_EMPTY_ATTRS:
                     yield ' ' + k.lower()
                 else:
-                    yield ' %s="%s"' % (k, self._escape(v))
+                    v = self._escape(v)
+                    if isinstance(v, flattener):
+                        v = v.accumulate_str()
+                    yield ' %s="%s"' % (k, v)
 
     def _collect(self, it):
         result = []
diff --git a/kajiki/util.py b/kajiki/util.py
index 3df530d..2ca9d7b 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -4,6 +4,7 @@ from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from collections import deque
 import sys
+from nine import str
 from random import randint
 from threading import local
 
@@ -74,7 +75,7 @@ class flattener(object):
             elif x is None:
                 pass
             else:
-                s += x
+                s += str(x)
         return s
 
     def __iter__(self):
-- 
2.43.0


From cbbe24a981d2401ccc6ecf5dbc1fd0183d3db0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:41 +0000
Subject: [PATCH 18/47] fix: do not ignore the encoding argument of
 FileLoader.load()

---
 kajiki/loader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index b120fa2..8f61cf7 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -77,14 +77,15 @@ class FileLoader(Loader):
                 del self.modules[name]
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
-    def _load(self, name, encoding='utf-8', *args, **kwargs):
-        '''Text templates are read in text mode and XML templates are read in
-        binary mode. Thus, the ``encoding`` argument is only used for reading
-        text template files.
+    def _load(self, name, encoding=None, *args, **kwargs):
+        '''The ``encoding`` argument is used for reading the template file,
+        instead of the default one of the loader.
         '''
         from kajiki import XMLTemplate, TextTemplate
         options = self._template_options.copy()
         options.update(kwargs)
+        if encoding is not None:
+            options['encoding'] = encoding
 
         filename = self._filename(name)
         if filename is None:
-- 
2.43.0


From 8ba2b560d49a14b11402572d25f993596138edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:44 +0000
Subject: [PATCH 19/47] fix: raise IOError when the file of a cached template
 was removed

---
 kajiki/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 8f61cf7..f2b11fe 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -70,8 +70,10 @@ class FileLoader(Loader):
         return None
 
     def import_(self, name, *args, **kwargs):
-        filename = self._filename(name)
         if self._reload and name in self.modules:
+            filename = self._filename(name)
+            if filename is None:
+                raise IOError('Unknown template %r' % name)
             mtime = os.stat(filename).st_mtime
             if mtime > self._timestamps.get(name, 0):
                 del self.modules[name]
-- 
2.43.0


From e98480ab432fd12b42bf55c693126dec79ee87b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:20 +0000
Subject: [PATCH 20/47] fix: reload a template that is replaced by an older
 file

---
 kajiki/loader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index f2b11fe..7c19849 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -69,13 +69,17 @@ class FileLoader(Loader):
                 return fn
         return None
 
+    def _timestamp(self, filename):
+        # A template changes when its file is replaced by an older one, or
+        # by another one that comes first in the path, too.
+        return filename, os.stat(filename).st_mtime
+
     def import_(self, name, *args, **kwargs):
         if self._reload and name in self.modules:
             filename = self._filename(name)
             if filename is None:
                 raise IOError('Unknown template %r' % name)
-            mtime = os.stat(filename).st_mtime
-            if mtime > self._timestamps.get(name, 0):
+            if self._timestamp(filename) != self._timestamps.get(name):
                 del self.modules[name]
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
@@ -92,7 +96,7 @@ class FileLoader(Loader):
         filename = self._filename(name)
         if filename is None:
             raise IOError('Unknown template %r' % name)
-        self._timestamps[name] = os.stat(filename).st_mtime
+        self._timestamps[name] = self._timestamp(filename)
         if self._force_mode == 'text':
             return TextTemplate(filename=filename,
                 autoescape=self._autoescape_text, *args, **options)
-- 
2.43.0


From a66d0b5294c66cf55cce998bfeb9982337841d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:35 +0000
Subject: [PATCH 21/47] fix: make FileLoader safe to use from several threads

Concurrent loads of a modified template could fail with KeyError or leave
an outdated template in the cache.
---
 kajiki/loader.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 7c19849..2c427f0 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -4,6 +4,7 @@ from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from nine import basestring, itervalues
 import os
+from threading import RLock
 import pkg_resources
 
 
@@ -50,6 +51,7 @@ class FileLoader(Loader):
         else:
             self.path = path
         self._timestamps = {}
+        self._lock = RLock()
         self._reload = reload
         self._force_mode = force_mode
         self._autoescape_text = autoescape_text
@@ -75,13 +77,14 @@ class FileLoader(Loader):
         return filename, os.stat(filename).st_mtime
 
     def import_(self, name, *args, **kwargs):
-        if self._reload and name in self.modules:
-            filename = self._filename(name)
-            if filename is None:
-                raise IOError('Unknown template %r' % name)
-            if self._timestamp(filename) != self._timestamps.get(name):
-                del self.modules[name]
-        return super(FileLoader, self).import_(name, *args, **kwargs)
+        with self._lock:
+            if self._reload and name in self.modules:
+                filename = self._filename(name)
+                if filename is None:
+                    raise IOError('Unknown template %r' % name)
+                if self._timestamp(filename) != self._timestamps.get(name):
+                    del self.modules[name]
+            return super(FileLoader, self).import_(name, *args, **kwargs)
 
     def _load(self, name, encoding=None, *args, **kwargs):
         '''The ``encoding`` argument is used for reading the template file,
-- 
2.43.0


From f6fefb674232de4504dbaed3f69d3b042f148034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:34 +0000
Subject: [PATCH 22/47] fix: do not drop HTML entities from attribute values

---
 kajiki/xml_template.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 6964dfa..71f67da 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -590,7 +590,8 @@ class _Parser(sax.ContentHandler):
     converted into the intermediate representation and
     then to Python Code.
     """
-    DTD = '<!DOCTYPE kajiki SYSTEM "kajiki.dtd">'
+    DTD = '<!DOCTYPE kajiki SYSTEM "kajiki.dtd"%s>'
+    ENTITY_REFERENCE = re.compile(r'&([a-zA-Z][a-zA-Z0-9]*);')
     XML_DECLARATION = re.compile(r'(<\?xml\s.*?\?>)?', re.DOTALL)
 
     def __init__(self, filename, source):
@@ -619,10 +620,23 @@ class _Parser(sax.ContentHandler):
             position = self.XML_DECLARATION.match(source).end()
         # Use our own DTD just for XML parsing, keeping the line numbers
         newlines = '\n' * self._doc._dtd.count('\n')
-        self._source = (source[:position] + self.DTD + newlines +
-                        source[position:])
+        self._source = (source[:position] + self.DTD % self._entities(source) +
+                        newlines + source[position:])
         self._cdata_stack = []
 
+    def _entities(self, source):
+        """Declare the HTML entities found in `source`.
+
+        The parser drops the entities it does not know from attribute values
+        without calling skippedEntity().
+        """
+        declarations = []
+        for name in sorted(set(self.ENTITY_REFERENCE.findall(source))):
+            if name + ';' in html5 and name not in ('lt', 'gt', 'amp', 'quot', 'apos'):
+                text = ''.join('&#38;#%d;' % ord(c) for c in html5[name + ';'])
+                declarations.append('<!ENTITY %s "%s">' % (name, text))
+        return ' [%s]' % ''.join(declarations) if declarations else ''
+
     def parse(self):
         """Parse an XML/HTML document to its DOM representation."""
         self._parser = parser = sax.make_parser()
-- 
2.43.0


From 01aacc88a80f115ba8ad5fe99f3a970388c9ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:34 +0000
Subject: [PATCH 23/47] fix: accept a -%} tag at the end of a text template

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 0277106..a47e453 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -150,7 +150,7 @@ class _Scanner(object):
         tag = self.tag(tagname, body[:-1] if ljust else body)
         self.pos = end + 2
         if ljust:
-            while self.source[self.pos] in ' \t':
+            while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
         return tag
 
-- 
2.43.0


From 8c7d498c3d284432233b0d5869c7052e69fc806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:34 +0000
Subject: [PATCH 24/47] fix: accept a backslash before an expression in text
 templates

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index a47e453..7af4259 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -359,7 +359,7 @@ class _Tag(_Token):
 def _unescape_newlines(text):
     i = 0
     while i < len(text):
-        if text[i] == '\\':
+        if text[i] == '\\' and i + 1 < len(text):
             if text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
-- 
2.43.0


From 1f4775b0dcb61e24d6fad6898dd58e1dc88c0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:16 +0000
Subject: [PATCH 25/47] fix: end a %switch with %else at its own %end in text
 templates

The %end closed only the %else, so that the %switch extended up to the
%end of the enclosing tag.
---
 kajiki/text.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 7af4259..3241620 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -265,8 +265,14 @@ class _Parser(object):
         return ir.ForNode(token.body, *body[:-1])
 
     def _parse_switch(self, token):
-        body = list(self._parse_body('end'))
-        return ir.SwitchNode(token.body, *body[:-1])
+        body = list(self._parse_body('end', 'else'))
+        stoptok = body.pop()
+        if stoptok is not None and stoptok.tagname == 'else':
+            # The %end of the %else is the one of the %switch.
+            node = self._parse_else(stoptok)
+            node.filename, node.lineno = stoptok.filename, stoptok.lineno
+            body.append(node)
+        return ir.SwitchNode(token.body, *body)
 
     def _parse_case(self, token):
         body = list(self._parse_body('case', 'else', 'end'))
-- 
2.43.0


From 79c787b6ede804a8215a59fd40c46a6e30eccea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 26/47] fix: allow space between {%switch%} and {%case%} in
 text templates

---
 kajiki/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 3241620..753dc59 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -272,6 +272,9 @@ class _Parser(object):
             node = self._parse_else(stoptok)
             node.filename, node.lineno = stoptok.filename, stoptok.lineno
             body.append(node)
+        # Ignore the space between {%switch%} and its first {%case%}
+        body = [x for x in body
+                if not (isinstance(x, ir.TextNode) and not x.text.strip())]
         return ir.SwitchNode(token.body, *body)
 
     def _parse_case(self, token):
-- 
2.43.0


From adb722ad5102e6c57ada8ca6d4c3486f3a07deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:44 +0000
Subject: [PATCH 27/47] fix: nest %if with %else inside %case in text templates

---
 kajiki/text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 753dc59..bd82744 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -212,6 +212,8 @@ class _Parser(object):
                     yield self.text(token)
                 elif isinstance(token, _Expr):
                     yield self.expr(token)
+                elif isinstance(token, ir.Node):
+                    yield token
                 elif isinstance(token, _Tag):
                     if token.tagname in stoptags:
                         yield token
@@ -257,7 +259,10 @@ class _Parser(object):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
         if stoptok.tagname == 'else':
-            self.push_tok(stoptok)
+            # Parse it right now, the enclosing tag can have its own %else.
+            node = self._parse_else(stoptok)
+            node.filename, node.lineno = stoptok.filename, stoptok.lineno
+            self.push_tok(node)
         return ir.IfNode(token.body, *body[:-1])
 
     def _parse_for(self, token):
-- 
2.43.0


From 6fa1a555d2446ae42a28d9e5d8d76fe1e91d3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:00 +0000
Subject: [PATCH 28/47] fix: keep CDATA sections inside directives

Their delimiters are markup: they are neither escaped nor translated.
---
 kajiki/xml_template.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 71f67da..2b49996 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -376,6 +376,10 @@ class _Compiler(object):
     @annotate
     def _compile_text(self, node):
         """Compile text nodes to their intermediate representation"""
+        if getattr(node, '_cdata', False):
+            # Keep the delimiters of CDATA sections inside directives too
+            yield ir.TextNode(node.data)
+            return
         kwargs = {}
         if node.parentNode and node.parentNode.tagName in HTML_CDATA_TAGS:
             # script and style should always be untranslatable.
-- 
2.43.0


From ea5c8c52b8d01ac264d1434d8d3517e2e9b62c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:30 +0000
Subject: [PATCH 29/47] fix: output a literal() as many times as it is used

It was an iterator, thus empty after the first time.
---
 kajiki/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index 2ca9d7b..5723032 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -63,7 +63,7 @@ class flattener(object):
         if type(self.iterator) == flattener:
             return self.iterator.accumulate_str()
         s = ''
-        iter_stack = [self.iterator]
+        iter_stack = [iter(self.iterator)]
         while iter_stack:
             try:
                 x = next(iter_stack[-1])
@@ -71,7 +71,7 @@ class flattener(object):
                 iter_stack.pop()
                 continue
             if type(x) == flattener:
-                iter_stack.append(x.iterator)
+                iter_stack.append(iter(x.iterator))
             elif x is None:
                 pass
             else:
@@ -89,7 +89,8 @@ class flattener(object):
 
 
 def literal(text):
-    return flattener(iter([text]))
+    # Not an iterator, because a literal can be output many times
+    return flattener([text])
 
 
 class NameGen(object):
-- 
2.43.0


From fbbcbbe58c70a5575785f6616a8d35bba2b1276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:33 +0000
Subject: [PATCH 30/47] fix: allow expressions that span several lines in text
 templates

---
 kajiki/ir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index ebbe877..96a75ed 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -320,7 +320,8 @@ class ExprNode(Node):
 
     def py(self):
         if self.safe:
-            yield self.line('yield %s' % self.text)
+            # The parentheses let the expression span several lines
+            yield self.line('yield (%s)' % (self.text if self.text.strip() else None))
         else:
             yield self.line('yield self.__kj__.escape(%s)' % self.text)
 
-- 
2.43.0


From 1d2aed627e030136b201e57eef8097baaa17995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:04 +0000
Subject: [PATCH 31/47] fix: do not look for ${} in py:content and py:attrs

Their values are Python code, which can contain anything in strings.
---
 kajiki/xml_template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 2b49996..0e256a6 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -223,15 +223,15 @@ class _Compiler(object):
             node.removeAttribute('py:strip')
         yield ir.TextNode('<%s' % node.tagName, guard)
         for k, v in sorted(node.attributes.items()):
-            tc = _TextCompiler(self.filename, v, node.lineno,
-                               ir.TextNode, in_html_attr=True, compiler_instance=self)
-            v = list(tc)
             if k == 'py:content':
                 content = node.getAttribute('py:content')
                 continue
             elif k == 'py:attrs':
                 attrs = node.getAttribute('py:attrs')
                 continue
+            tc = _TextCompiler(self.filename, v, node.lineno,
+                               ir.TextNode, in_html_attr=True, compiler_instance=self)
+            v = list(tc)
             yield ir.AttrNode(k, v, guard, self.mode)
         if attrs:
             yield ir.AttrsNode(attrs, guard, self.mode)
-- 
2.43.0


From de16d580ad72ea31dcf05a41d66cd6e549bfd3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:26 +0000
Subject: [PATCH 32/47] fix: allow semicolons in the strings of py:with

---
 kajiki/ir.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 96a75ed..41f5ad9 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -213,14 +213,27 @@ class WithNode(HierNode):
         super(WithNode, self).__init__(body)
         assignments = []
         matches = self.assignment_pattern.finditer(vars)
+        start = None
         for m1, m2 in window(chain(matches, [None]), 2):
-            lhs = m1.group(1).strip()
-            rhs = vars[m1.end():(m2.start() if m2 else len(vars))]
-            assignments.append((lhs, rhs))
+            if start is None:
+                start = m1
+            rhs = vars[start.end():(m2.start() if m2 else len(vars))]
+            if m2 and not self._is_value(rhs):
+                continue  # The semicolon is part of a string
+            assignments.append((start.group(1).strip(), rhs))
+            start = None
 
         self.vars = assignments
         self.var_names = [l for l, _ in assignments]
 
+    @staticmethod
+    def _is_value(text):
+        try:
+            compile('_ = ' + text, '', 'exec')
+        except SyntaxError:
+            return False
+        return True
+
     def py(self):
         yield self.line(
             'local.__kj__.push_with(locals(), [%s])' % (
-- 
2.43.0


From 52ed5dca48f4f818d41c6e71db519ef68acaba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:00 +0000
Subject: [PATCH 33/47] fix: process directives when a comment precedes the
 root element

---
 kajiki/xml_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 0e256a6..0a9947e 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -795,7 +795,8 @@ class _DomTransformer(object):
         Any other node (including CDATA TextNodes) splits runs of TextNodes.
         """
         if isinstance(tree, dom.Document):
-            cls._merge_text_nodes(tree.firstChild)
+            for child in tree.childNodes:
+                cls._merge_text_nodes(child)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
@@ -899,7 +900,8 @@ class _DomTransformer(object):
         receive the latter.
         """
         if isinstance(tree, dom.Document):
-            cls._expand_directives(tree.firstChild, tree)
+            for child in list(tree.childNodes):
+                cls._expand_directives(child, tree)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
-- 
2.43.0


From ab655a6ab2513f8c179e906c37fda50e7bb3090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:34 +0000
Subject: [PATCH 34/47] fix: keep the defaults of keyword-only parameters of
 template functions

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index cd36972..717c806 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -405,6 +405,8 @@ class TplFunc(object):
             self._func.__defaults__,
             self._func.__closure__
         )
+        if not IS_PYTHON2:
+            func.__kwdefaults__ = self._func.__kwdefaults__
         return update_wrapper(
             lambda *a, **kw: flattener(func(*a, **kw)),
             func)
-- 
2.43.0


From 16cc05ff4861aa1e40c6e4d111b19ca34f28d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 35/47] fix: take only the declaration before the root element
 as the DTD

---
 kajiki/doctype.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index 66833d6..9cb8eb4 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -122,6 +122,10 @@ for dtd in (
     DocumentTypeDeclaration.by_uri[dtd.uri] = dtd
 
 
+# What can precede a DTD: spaces, comments and processing instructions
+PROLOG = re.compile(r'(?:\ufeff|\s|<!--.*?-->|<\?.*?\?>)*', flags=re.DOTALL)
+
+
 def extract_dtd(markup):
     """Lookup the DTD in the provided markup code.
 
@@ -145,8 +149,10 @@ def extract_dtd(markup):
         <!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
             "http://www.w3.org/TR/html4/loose.dtd">
     """
-    match = DocumentTypeDeclaration.REGEX.search(markup)
+    # Only the declaration that precedes the root element is a DTD: the same
+    # text can be part of a comment or of a CDATA section.
+    position = PROLOG.match(markup).end()
+    match = DocumentTypeDeclaration.REGEX.match(markup, position)
     if not match:
         return '', 0, markup
-    found = match.group()
-    return found, match.start(), markup.replace(found, '', 1)
+    return match.group(), position, markup[:position] + markup[match.end():]
-- 
2.43.0


From 4f6e82689a72a4c035f53eea82c3580fed635a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:59 +0000
Subject: [PATCH 36/47] fix: accept a byte order mark before a template without
 DTD

---
 kajiki/xml_template.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 0a9947e..24ab3c6 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -596,7 +596,7 @@ class _Parser(sax.ContentHandler):
     """
     DTD = '<!DOCTYPE kajiki SYSTEM "kajiki.dtd"%s>'
     ENTITY_REFERENCE = re.compile(r'&([a-zA-Z][a-zA-Z0-9]*);')
-    XML_DECLARATION = re.compile(r'(<\?xml\s.*?\?>)?', re.DOTALL)
+    XML_DECLARATION = re.compile('\ufeff?' r'(<\?xml\s.*?\?>)?', re.DOTALL)
 
     def __init__(self, filename, source):
         """XML defines only a few entities; HTML defines many more.
@@ -620,7 +620,8 @@ class _Parser(sax.ContentHandler):
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
         if not self._doc._dtd:
-            # Nothing can precede an XML declaration, not even our own DTD
+            # Nothing can precede an XML declaration (or a byte order mark),
+            # not even our own DTD
             position = self.XML_DECLARATION.match(source).end()
         # Use our own DTD just for XML parsing, keeping the line numbers
         newlines = '\n' * self._doc._dtd.count('\n')
-- 
2.43.0


From 986898821132568907c477f52d3701d292e64c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:13 +0000
Subject: [PATCH 37/47] fix: apply xml_autoblocks of FileLoader without
 force_mode

---
 kajiki/loader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 2c427f0..53673dd 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -45,7 +45,7 @@ class FileLoader(Loader):
                  autoescape_text=False, xml_autoblocks=None,
                  **template_options):
         super(FileLoader, self).__init__()
-        from kajiki import XMLTemplate, TextTemplate
+        from kajiki import TextTemplate
         if isinstance(path, basestring):
             self.path = path.split(';')
         else:
@@ -60,9 +60,14 @@ class FileLoader(Loader):
         self.extension_map = dict(
             txt=lambda *a, **kw: TextTemplate(
                 autoescape=self._autoescape_text, *a, **kw),
-            xml=XMLTemplate,
-            html=lambda *a, **kw: XMLTemplate(mode='html', *a, **kw),
-            html5=lambda *a, **kw: XMLTemplate(mode='html5', *a, **kw))
+            xml=self._xml_template,
+            html=lambda *a, **kw: self._xml_template(mode='html', *a, **kw),
+            html5=lambda *a, **kw: self._xml_template(mode='html5', *a, **kw))
+
+    def _xml_template(self, *args, **kwargs):
+        from kajiki import XMLTemplate
+        kwargs.setdefault('autoblocks', self._xml_autoblocks)
+        return XMLTemplate(*args, **kwargs)
 
     def _filename(self, name):
         for base in self.path:
-- 
2.43.0


From edc7562776c53f1c41c9d2ab8d68c231ca60f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 38/47] fix: accept {%- tags after other text in text templates

The manual says that {%- removes the white space before the tag, but the
tag was only recognised at the start of a line, elsewhere it was an
AssertionError.
---
 kajiki/text.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index bd82744..17aecc0 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -41,7 +41,7 @@ _pattern = r'''
     (?P<tag_bare>[a-z]+) | # %for, %end, etc.
     (?P<tag_bare_invalid>)
 )|
-^\s*{%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
+(?:^\s*)?{%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
 {%(?:
     (?P<tag_begin>[a-z]+) | # {%for, {%end, etc.
     (?P<tag_begin_invalid>)
@@ -82,10 +82,13 @@ class _Scanner(object):
             if start < self.pos:
                 # Part of an expression or tag that has already been consumed.
                 continue
+            groups = mo.groupdict()
             if start > self.pos:
-                yield self.text(source[self.pos:start])
+                text = source[self.pos:start]
+                if groups['tag_begin_ljust'] is not None:
+                    text = text.rstrip(' \t')
+                yield self.text(text)
                 self.pos = start
-            groups = mo.groupdict()
             if groups['expr_braced'] is not None:
                 self.pos = mo.end()
                 yield self._get_braced_expr()
-- 
2.43.0


From d79d08f86cf94556d4147d49761b1c348912a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:57 +0000
Subject: [PATCH 39/47] fix: refuse unterminated or invalid braced expressions
 in text templates

${x] was taken as ${x}: any character at which the Python compiler found
a syntax error ended the expression and was dropped from the output.
---
 kajiki/text.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 17aecc0..ebdcb88 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -158,15 +158,20 @@ class _Scanner(object):
         return tag
 
     def _get_braced_expr(self):
+        end = self.pos
         try:
             compile(self.source[self.pos:], '', 'eval')
         except SyntaxError as se:
             end = self.pos + sum([se.offset] + [len(line) + 1
                                                 for idx, line in enumerate(self.source[self.pos:].split('\n'))
                                                 if idx < se.lineno - 1])
-            expr = self.expr(self.source[self.pos:end - 1])
-            self.pos = end
-            return expr
+        if self.source[end - 1:end] != '}':
+            raise kajiki.template.KajikiSyntaxError(
+                'Braced expression not terminated',
+                self.source, self.filename, self.lineno, 0)
+        expr = self.expr(self.source[self.pos:end - 1])
+        self.pos = end
+        return expr
 
 
 class _Parser(object):
-- 
2.43.0


From 7fcb3bfc99828e7d787e6d673b01715fd2286d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:55 +0000
Subject: [PATCH 40/47] fix: let an expression be an unparenthesized tuple

---
 kajiki/ir.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 41f5ad9..2a6ac84 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -20,6 +20,11 @@ def generate_python(ir):
             yield line.indent(cur_indent)
 
 
+def argument(text):
+    """Write an expression as one argument of a call, even if it's a tuple."""
+    return '(%s)' % text if text.strip() else text
+
+
 class Node(object):
     def __init__(self):
         self.filename = '<string>'
@@ -258,7 +263,7 @@ class SwitchNode(HierNode):
         self.decl = decl
 
     def py(self):
-        yield self.line('local.__kj__.push_switch(%s)' % self.decl)
+        yield self.line('local.__kj__.push_switch(%s)' % argument(self.decl))
         yield self.line('if False: pass')
 
     def __iter__(self):
@@ -274,7 +279,7 @@ class CaseNode(HierNode):
         self.decl = decl
 
     def py(self):
-        yield self.line('elif local.__kj__.case(%s):' % self.decl)
+        yield self.line('elif local.__kj__.case(%s):' % argument(self.decl))
 
 
 class IfNode(HierNode):
@@ -336,7 +341,7 @@ class ExprNode(Node):
             # The parentheses let the expression span several lines
             yield self.line('yield (%s)' % (self.text if self.text.strip() else None))
         else:
-            yield self.line('yield self.__kj__.escape(%s)' % self.text)
+            yield self.line('yield self.__kj__.escape(%s)' % argument(self.text))
 
 
 class AttrNode(HierNode):
@@ -397,7 +402,7 @@ class AttrsNode(Node):
         def _body():
             yield self.line(
                 'for %s in self.__kj__.render_attrs(%s, %r):' % (
-                    x, self.attrs, self.mode))
+                    x, argument(self.attrs), self.mode))
             yield self.line('    yield %s' % x)
         if self.guard:
             yield self.line('if %s:' % self.guard)
-- 
2.43.0


From 2dbfc669895150cbf2cf3523bcb7e15f5187d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:19 +0000
Subject: [PATCH 41/47] fix: refuse py:else after py:for, wherever it is

---
 kajiki/xml_template.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 24ab3c6..274f610 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -442,9 +442,12 @@ class _Compiler(object):
     @annotate
     def _compile_else(self, node):
         """Convert py:else nodes to their intermediate representation."""
-        if (getattr(node.parentNode, 'tagName', '') != 'py:nop' and
-                not node.parentNode.hasAttribute('py:switch') and
-                getattr(node.previousSibling, 'tagName', '') != 'py:if'):
+        previous = node.previousSibling
+        while isinstance(previous, dom.Comment) and previous.data.startswith('!'):
+            previous = previous.previousSibling
+        # A py:switch was expanded to <py:switch><py:nop>...</py:nop></py:switch>
+        if (getattr(node.parentNode.parentNode, 'tagName', '') != 'py:switch' and
+                getattr(previous, 'tagName', '') != 'py:if'):
             raise XMLTemplateCompileError(
                 'py:else directive must be inside a py:switch or directly after py:if '
                 'without text or spaces in between',
-- 
2.43.0


From 4fa866c3509183289c4898e99eddf1ca8d22add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:31 +0000
Subject: [PATCH 42/47] fix: leave the code of %py blocks in text templates as
 it is written

---
 kajiki/text.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index ebdcb88..b873b86 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -143,7 +143,7 @@ class _Scanner(object):
             end = len(self.source)
         tag = self.tag(tagname, self.source[self.pos:end])
         self.pos = end + 1
-        return tag
+        return self._get_code(tag)
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
@@ -155,6 +155,16 @@ class _Scanner(object):
         if ljust:
             while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
+        return self._get_code(tag)
+
+    def _get_code(self, tag):
+        """Give a %py tag the code up to its %end, as it was written."""
+        if tag.tagname == 'py' and not tag.body.strip():
+            for mo in _re_pattern.finditer(self.source, self.pos):
+                if 'end' in mo.group('tag_bare', 'tag_begin', 'tag_begin_ljust'):
+                    tag.code = self.source[self.pos:mo.start()]
+                    self.pos = mo.start()
+                    break
         return tag
 
     def _get_braced_expr(self):
@@ -324,11 +334,10 @@ class _Parser(object):
 
     def _parse_py(self, token):
         body = token.body.strip()
-        if body:
-            body = [ir.TextNode(body), None]
-        else:
-            body = list(self._parse_body('end'))
-        node = ir.PythonNode(*body[:-1])
+        if not body:
+            body = token.code
+            list(self._parse_body('end'))
+        node = ir.PythonNode(ir.TextNode(body))
         if node.module_level:
             self.mod_py.append(node)
             return None
@@ -371,6 +380,8 @@ class _Text(_Token):
 
 
 class _Tag(_Token):
+    code = ''
+
     def __init__(self, filename, lineno, tagname, body):
         self.tagname = tagname
         self.body = body
-- 
2.43.0


From 487a5888e024d72f8f718221f7477d1a9d554e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:31 +0000
Subject: [PATCH 43/47] fix: indented code blocks, and strings that span lines
 in code blocks

---
 kajiki/ir.py           | 42 +++++++++++++++++++++++++++++++-----------
 kajiki/text.py         |  4 ++--
 kajiki/xml_template.py | 10 ++++++++--
 3 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 2a6ac84..1fa2536 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -2,8 +2,10 @@
 
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
+from io import StringIO
 from itertools import chain
 import re
+import tokenize
 
 from .util import gen_name, flattener, window
 from nine import nine
@@ -422,9 +424,10 @@ class PythonNode(Node):
             assert isinstance(b, TextNode)
             blocks.append(b.text)
         text = ''.join(blocks)
-        if text[0] == '%':
+        if text.lstrip()[:1] == '%':
             self.module_level = True
-            text = text[1:]
+            before, _, after = text.partition('%')
+            text = before + after.lstrip(' \t')
         self.lines = list(self._normalize(text))
 
     def py(self):
@@ -432,15 +435,32 @@ class PythonNode(Node):
             yield self.line(line)
 
     def _normalize(self, text):
-        if text.startswith('#\n'):
-            text = text[2:]
-        prefix = None
-        for line in text.splitlines():
-            if prefix is None:
-                rest = line.lstrip()
-                prefix = line[:len(line) - len(rest)]
-            assert line.startswith(prefix)
-            yield line[len(prefix):]
+        lines = text.split('\n')
+        code = [l for l in lines if l.strip() and l.lstrip()[0] != '#']
+        prefix = code[0][:len(code[0]) - len(code[0].lstrip())] if code else ''
+        inside = self._inside_strings(text)
+        result = []
+        for lineno, line in enumerate(lines, 1):
+            if lineno in inside:
+                # These blanks are part of a string
+                result[-1] += '\n' + line
+            elif line.startswith(prefix):
+                result.append(line[len(prefix):])
+            else:
+                result.append(line.lstrip())
+        return result
+
+    @staticmethod
+    def _inside_strings(text):
+        """Returns the numbers of the lines that start inside a string."""
+        result = set()
+        try:
+            for tok in tokenize.generate_tokens(StringIO(text).readline):
+                if tokenize.tok_name[tok[0]] in ('STRING', 'FSTRING_MIDDLE'):
+                    result.update(range(tok[2][0] + 1, tok[3][0] + 1))
+        except (tokenize.TokenError, SyntaxError):
+            pass  # Reported when the code is compiled
+        return result
 
 
 def optimize(iter_node):
diff --git a/kajiki/text.py b/kajiki/text.py
index b873b86..2b08387 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -333,8 +333,8 @@ class _Parser(object):
         return ir.IncludeNode(fn)
 
     def _parse_py(self, token):
-        body = token.body.strip()
-        if not body:
+        body = token.body.strip(' \t')
+        if not body.strip():
             body = token.code
             list(self._parse_body('end'))
         node = ir.PythonNode(ir.TextNode(body))
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 274f610..14ef189 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -292,7 +292,7 @@ class _Compiler(object):
         (it starts with % character) will be registered in compiler registry
         of module wide code to be provided to be template.
         """
-        body = ir.TextNode(node.data.strip())
+        body = ir.TextNode(node.data.rstrip())
         node = ir.PythonNode(body)
         if node.module_level:
             self.mod_py.append(node)
@@ -699,8 +699,14 @@ class _Parser(sax.ContentHandler):
         self._els[-1].appendChild(node)
 
     def processingInstruction(self, target, data):
+        lineno = self._parser.getLineNumber()
+        lines = re.split('\r\n?|\n', self._source)
+        if lines[lineno - 1][self._parser.getColumnNumber():].strip() == '<?' + target:
+            # The parser drops the indentation of the first line of code
+            first = next((l for l in lines[lineno:] if l.strip()), '')
+            data = '\n' + first[:len(first) - len(first.lstrip())] + data
         node = self._doc.createProcessingInstruction(target, data)
-        node.lineno = self._parser.getLineNumber()
+        node.lineno = lineno
         self._els[-1].appendChild(node)
 
     def skippedEntity(self, name):
-- 
2.43.0


From 5cf0420771674bfc9ad85f0c9918e1aaae1c9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:31 +0000
Subject: [PATCH 44/47] fix: allow code before the root of an XML template

---
 kajiki/xml_template.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 14ef189..26db387 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -116,11 +116,12 @@ class _Compiler(object):
             never be called twice or might lead to unexpected results.
         """
         templateNodes = [n for n in self.doc.childNodes if not isinstance(n, dom.Comment)]
-        if len(templateNodes) != 1:
+        # Python code can precede the root
+        if len([n for n in templateNodes if not self._is_code(n)]) != 1:
             raise XMLTemplateCompileError('expected a single root node in document',
                                           self.doc, self.filename, 0)
 
-        body = list(self._compile_node(templateNodes[0]))
+        body = [x for n in templateNodes for x in self._compile_node(n)]
         # Never emit doctypes on fragments
         if not self.is_fragment and not self.is_child:
             if self.doc._dtd:
@@ -151,6 +152,11 @@ class _Compiler(object):
         ir_node.filename = self.filename
         ir_node.lineno = dom_node.lineno
 
+    @staticmethod
+    def _is_code(node):
+        return (isinstance(node, dom.ProcessingInstruction)
+                and node.target in ('py', 'python'))
+
     def _is_autoblock(self, node):
         if node.tagName not in self.autoblocks:
             return False
-- 
2.43.0


From 5d74ccde0ba2d581582f99c2e2e982e46dac4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:07 +0000
Subject: [PATCH 45/47] fix: %call arguments whose default values contain
 parentheses

---
 kajiki/text.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 2b08387..2e07cee 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -264,6 +264,9 @@ class _Parser(object):
     def _parse_call(self, token):
         b = token.body.find('(')
         e = token.body.find(')', b)
+        while e > b > -1 and not _is_signature(token.body[b:e + 1]):
+            # This one is part of a default value
+            e = token.body.find(')', e + 1)
         assert e > b > -1
         arglist = token.body[b:e + 1]
         call = token.body[e + 1:].strip()
@@ -389,6 +392,14 @@ class _Tag(_Token):
         super(_Tag, self).__init__(filename, lineno, text)
 
 
+def _is_signature(text):
+    try:
+        compile('def _%s: pass' % text, '', 'exec')
+    except SyntaxError:
+        return False
+    return True
+
+
 def _unescape_newlines(text):
     i = 0
     while i < len(text):
-- 
2.43.0


From 7c955488eaaff556857a898fd9219d34c73e8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:47 +0000
Subject: [PATCH 46/47] fix: accept CRLF line ends after %tags and joined lines
 in text templates

---
 kajiki/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 2e07cee..536c32f 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -141,7 +141,7 @@ class _Scanner(object):
         end = self.source.find('\n', self.pos)
         if end == -1:
             end = len(self.source)
-        tag = self.tag(tagname, self.source[self.pos:end])
+        tag = self.tag(tagname, self.source[self.pos:end].rstrip('\r'))
         self.pos = end + 1
         return self._get_code(tag)
 
@@ -404,7 +404,9 @@ def _unescape_newlines(text):
     i = 0
     while i < len(text):
         if text[i] == '\\' and i + 1 < len(text):
-            if text[i + 1] != '\n':
+            if text.startswith('\r\n', i + 1):
+                i += 1
+            elif text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
         else:
-- 
2.43.0


From cc121edb5449ee91bb3bd3c882cf600ad161aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:18 +0000
Subject: [PATCH 47/47] fix: restore names of the context after py:with

---
 kajiki/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 717c806..7b78104 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -130,7 +130,8 @@ class _Template(object):
         pushed on top of a stack by :class:`kajiki.ir.WithNode` so that
         when the node is exited the previous values can be recovered.
         """
-        self._with_stack.append([locals_.get(k, ()) for k in vars])
+        self._with_stack.append([
+            locals_.get(k, self.__globals__.get(k, ())) for k in vars])
 
     def _pop_with(self):
         """Exists a ``py:with`` block.
-- 
2.43.0

