From 0fdd738e2a40fc982614f0a42c56c905ca266649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:53 +0000
Subject: [PATCH 01/62] fix: '#filter None' also applies to template methods
 called in its body

---
 Cheetah/Compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 61c7468..61b1c2b 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1029,7 +1029,8 @@ class MethodCompiler(GenUtils):
                 + theFilter.strip() + '(self).filter')
         else:
             if theFilter.lower() == 'none':
-                self.addChunk('_filter = self._CHEETAH__initialFilter')
+                self.addChunk('_filter = self._CHEETAH__currentFilter = '
+                              'self._CHEETAH__initialFilter')
             else:
                 # is string representing the name of a builtin filter
                 self.addChunk('filterName = ' + repr(theFilter))
-- 
2.43.0


From 0a80d0bb7bcfc1897c6a44bc096c50f24402319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:53 +0000
Subject: [PATCH 02/62] fix: output of methods called in a #cache region is
 cached with the region

---
 Cheetah/Compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 61b1c2b..faabc78 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -831,6 +831,9 @@ class MethodCompiler(GenUtils):
             % locals())
         self.indent()
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
+        self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
+                      % locals())
+        self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk('trans = _cacheCollector_%(ID)s = DummyTransaction()'
                       % locals())
         self.addChunk('write = _cacheCollector_%(ID)s.response().write'
@@ -844,6 +847,9 @@ class MethodCompiler(GenUtils):
         ID = self._cacheRegionsStack.pop()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
+        self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s'
+                      % locals())
+        self.addChunk('del _wasBuffering%(ID)s' % locals())
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
-- 
2.43.0


From 39f08e506f7083dfdd09c0d868a707197ac5a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:33 +0000
Subject: [PATCH 03/62] fix: '<%= expr %>' honours useFilters=False

---
 Cheetah/Compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index faabc78..7460624 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -739,7 +739,10 @@ class MethodCompiler(GenUtils):
         if PSP[0] == '=':
             PSP = PSP[1:]
             if PSP:
-                self.addWriteChunk('_filter(' + PSP + ')')
+                if self.setting('useFilters'):
+                    self.addWriteChunk('_filter(' + PSP + ')')
+                else:
+                    self.addWriteChunk('str(' + PSP + ')')
             return
 
         elif PSP.lower() == 'end':
-- 
2.43.0


From f2f2a9b1380e6659d2a29ff9abccc109db05b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:23 +0000
Subject: [PATCH 04/62] fix: quotes and backslashes in doc comments cannot
 break the generated code

---
 Cheetah/Compiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 7460624..cf3d7fe 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -143,6 +143,10 @@ class GenUtils(object):
     parsing themselves.
     """
 
+    def escapeDocString(self, line):
+        """Make a line of text safe inside a triple-quoted string."""
+        return line.replace('\\', '\\\\').replace('"""', "'''")
+
     def genTimeInterval(self, timeString):
         # #@@ TR: need to add some error handling here
         if timeString[-1] == 's':
@@ -420,7 +424,7 @@ class MethodCompiler(GenUtils):
 
         ind = self._indent*2  # noqa: E226 missing whitespace around operator
         docStr = (ind + '"""\n' + ind
-                  + ('\n' + ind).join([ln.replace('"""', "'''")
+                  + ('\n' + ind).join([self.escapeDocString(ln)
                                        for ln in self._docStringLines])
                   + '\n' + ind + '"""\n')
         return docStr
@@ -1590,7 +1594,8 @@ class ClassCompiler(GenUtils):
             return ''
         ind = self.setting('indentationStep')
         docStr = ('%(ind)s"""\n%(ind)s'
-                  + '\n%(ind)s'.join(self._classDocStringLines)
+                  + '\n%(ind)s'.join([self.escapeDocString(ln)
+                                      for ln in self._classDocStringLines])
                   + '\n%(ind)s"""\n'
                   ) % {'ind': ind}
         return docStr
@@ -2153,7 +2158,8 @@ if not hasattr(%(mainClassName)s, '_initCheetahAttributes'):
         if not self._moduleDocStringLines:
             return ''
 
-        return ('"""' + '\n'.join(self._moduleDocStringLines)
+        return ('"""' + '\n'.join([self.escapeDocString(ln)
+                                   for ln in self._moduleDocStringLines])
                 + '\n"""\n')
 
     def specialVars(self):
-- 
2.43.0


From 6163a2d3eecd985553c184df39de84f2046eec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:23 +0000
Subject: [PATCH 05/62] fix: quotes and backslashes in a placeholder under
 #errorCatcher

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index cf3d7fe..207d481 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1502,7 +1502,7 @@ class ClassCompiler(GenUtils):
         catcherMeth.addChunk('try:')
         catcherMeth.indent()
         catcherMeth.addChunk(
-            "return eval('''" + codeChunk + "''', globals(), localsDict)")
+            "return eval(" + repr(codeChunk) + ", globals(), localsDict)")
         catcherMeth.dedent()
         catcherMeth.addChunk(
             'except self._CHEETAH__errorCatcher.exceptions() as e:')
-- 
2.43.0


From fafba142c758090b6cfc1ee3041dae0b478ebe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:23 +0000
Subject: [PATCH 06/62] fix: #call of a function with arguments on several
 lines

---
 Cheetah/Compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 207d481..06c944b 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -885,7 +885,7 @@ class MethodCompiler(GenUtils):
         self._callRegionsStack.append((ID, callDetails))
 
         self.addChunk('## START %(regionTitle)s REGION: ' % locals() + ID
-                      + ' of ' + functionName
+                      + ' of ' + ' '.join(functionName.splitlines())
                       + ' at line %s, col %s' % lineCol + ' in the source.')
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
         self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
@@ -954,7 +954,7 @@ class MethodCompiler(GenUtils):
                 % locals())
             self.addChunk('del _callKws%(ID)s' % locals())
         self.addChunk('## END %(regionTitle)s REGION: ' % locals() + ID
-                      + ' of ' + functionName
+                      + ' of ' + ' '.join(functionName.splitlines())
                       + ' at line %s, col %s' % lineCol + ' in the source.')
         self.addChunk('')
         self._callRegionsStack.pop()  # attrib of current methodCompiler
-- 
2.43.0


From 0ad28a42dcd6445775c7f5d9f9378cf2cec929fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:34 +0000
Subject: [PATCH 07/62] fix: #capture into a target spanning several lines

---
 Cheetah/Compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 06c944b..6911ad2 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -972,7 +972,8 @@ class MethodCompiler(GenUtils):
 
         # attrib of current methodCompiler
         self._captureRegionsStack.append((ID, captureDetails))
-        self.addChunk('## START CAPTURE REGION: ' + ID + ' ' + assignTo
+        self.addChunk('## START CAPTURE REGION: ' + ID + ' '
+                      + ' '.join(assignTo.splitlines())
                       + ' at line %s, col %s' % lineCol + ' in the source.')
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
         self.addChunk(
-- 
2.43.0


From 28bdc6608469714c76b90942e1b38c3d8bd2401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:58 +0000
Subject: [PATCH 08/62] fix: a custom EOLSlurpToken is recognised in the middle
 of text

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3b7c4b1..bfee977 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -433,7 +433,8 @@ class _LowLevelParser(SourceReader):
             + self.setting('multiLineCommentStartToken')[0]
             + self.setting('cheetahVarStartToken')[0]
             + self.setting('directiveStartToken')[0]
-            + self.setting('PSPStartToken')[0])
+            + self.setting('PSPStartToken')[0]
+            + (self.setting('EOLSlurpToken') or '')[:1])
         self._nonStrConstMatchers = [
             self.matchCommentStartToken,
             self.matchMultiLineCommentStartToken,
-- 
2.43.0


From 0b9db7f7591ab6f835132348398112c3f1ed968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:48 +0000
Subject: [PATCH 09/62] fix: text of a single-line #closure or nested #def
 stays in its body

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index bfee977..dce0d03 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2101,6 +2101,7 @@ class _HighLevelParser(_LowLevelParser):
                 includeBlockMarkers()
                 self._compiler.closeBlock()
             elif directiveName == 'closure' or isNestedDef:
+                self._compiler.commitStrConst()
                 self._compiler.dedent()
 
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
-- 
2.43.0


From 1969feeff5dac568df981ad8f684b230364b1442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:04 +0000
Subject: [PATCH 10/62] fix: nested closures restore useSearchList to what each
 one found

---
 Cheetah/Parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index dce0d03..927da08 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1409,6 +1409,7 @@ class _HighLevelParser(_LowLevelParser):
         self._macros = {}
         self._macroDetails = {}
         self._openDirectivesStack = []
+        self._useSearchListStack = []
 
     def cleanup(self):
         """Cleanup to remove any possible reference cycles
@@ -1868,7 +1869,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.commitStrConst()
             self._compiler.dedent()
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchListStack.pop())
 
     # specific directive eat methods
 
@@ -2139,7 +2140,7 @@ class _HighLevelParser(_LowLevelParser):
                 directiveName == 'def' and not isNestedDef):
             self._compiler.startMethodDef(methodName, argsList, parserComment)
         else:  # closure
-            self._useSearchList_orig = self.setting('useSearchList')
+            self._useSearchListStack.append(self.setting('useSearchList'))
             self.setSetting('useSearchList', False)
             self._compiler.addClosure(methodName, argsList, parserComment)
 
@@ -2760,7 +2761,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.closeDef()
         else:
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchListStack.pop())
             self._compiler.commitStrConst()
             self._compiler.dedent()
     ###
-- 
2.43.0


From 02245b128c901744ebc040551b0563f1f4fa9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:04 +0000
Subject: [PATCH 11/62] fix: mixed-case directive names can be disabled
 (errorCatcher, shBang)

---
 Cheetah/Parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 927da08..9e8468e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1526,9 +1526,13 @@ class _HighLevelParser(_LowLevelParser):
 
     def _filterDisabledDirectives(self, directiveName):
         directiveName = directiveName.lower()
-        if (directiveName in self.setting('disabledDirectives')
-            or (self.setting('enabledDirectives')
-                and directiveName not in self.setting('enabledDirectives'))):
+        disabledDirectives = [
+            name.lower() for name in self.setting('disabledDirectives')]
+        enabledDirectives = [
+            name.lower() for name in self.setting('enabledDirectives')]
+        if (directiveName in disabledDirectives
+            or (enabledDirectives
+                and directiveName not in enabledDirectives)):
             for callback in self.setting('disabledDirectiveHooks'):
                 callback(parser=self, directiveName=directiveName)
             raise ForbiddenDirective(
-- 
2.43.0


From 1d2e72e33a855465d4c4db148497cba89ce71e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:14 +0000
Subject: [PATCH 12/62] fix: expression filter hooks see the arguments of #call

---
 Cheetah/Parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 9e8468e..35d2481 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2565,12 +2565,12 @@ class _HighLevelParser(_LowLevelParser):
         else:
             functionName = self.getCheetahVar(plain=True, skipStartToken=True)
         self.setSetting('useAutocalling', useAutocallingOrig)
+        self.getWhiteSpace()
+        args = self.getExpression(pyTokensToBreakAt=[':']).strip()
         # @@TR: fix up filtering
         self._applyExpressionFilters(self[startPos:self.pos()], 'call',
                                      startPos=startPos)
 
-        self.getWhiteSpace()
-        args = self.getExpression(pyTokensToBreakAt=[':']).strip()
         if self.matchColonForSingleLineShortFormDirective():
             self.advance()  # skip over :
             self._compiler.startCallRegion(functionName, args, lineCol)
-- 
2.43.0


From 913e474e96420906fb2b0a37546655e48b0257c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:14 +0000
Subject: [PATCH 13/62] fix: expression filter hooks see the arguments of a
 macro call

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 35d2481..afd8b84 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2445,6 +2445,8 @@ class _HighLevelParser(_LowLevelParser):
             self.getWhiteSpace()
             args = self.getExpression(useNameMapper=False,
                                       pyTokensToBreakAt=[':']).strip()
+            args = self._applyExpressionFilters(args, macroName,
+                                                startPos=startPos)
 
         if self.matchColonForSingleLineShortFormDirective():
             isShortForm = True
-- 
2.43.0


From c4ef30cdf39f1fc34acff7f28ead6d882e42d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:41 +0000
Subject: [PATCH 14/62] fix: a single-line #block inside a #def failed with
 UnboundLocalError

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index afd8b84..c035306 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2171,7 +2171,8 @@ class _HighLevelParser(_LowLevelParser):
 
         self.getWhiteSpace(max=1)
         self.parse(breakPoint=endPos)
-        if directiveName == 'closure' or isNestedDef:
+        if directiveName != 'block' and (
+                directiveName == 'closure' or isNestedDef):
             # @@TR: temporary hack of useSearchList
             self.setSetting('useSearchList', useSearchList_orig)
 
-- 
2.43.0


From 0f1213e9fb28bc75b711d15c211d48f5a2bb8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:41 +0000
Subject: [PATCH 15/62] fix: #silent/#echo must not take the first word of
 their expression for the directive name

---
 Cheetah/Parser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index c035306..6114d0a 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1780,7 +1780,6 @@ class _HighLevelParser(_LowLevelParser):
             self.advance(len(directiveName))
         startPos = self.pos()
         expr = self.getExpression().strip()
-        directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
         if directiveName in self._closeableDirectives:
-- 
2.43.0


From 4f35128e93fe85dd82c7e1e645b08d3e32e23057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:59 +0000
Subject: [PATCH 16/62] fix: Template.compile(returnAClass=False) must not take
 the code of a cached class for its result

---
 Cheetah/Template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e7d06a4..9d003dd 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -764,7 +764,9 @@ class Template(Servlet):
                 pass
         outputEncoding = 'ascii'
         compiler = None
-        if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
+        # the cache holds classes, not the encoding the code is written in
+        if returnAClass and useCache and cacheHash and \
+                cacheHash in klass._CHEETAH_compileCache:
             cacheItem = klass._CHEETAH_compileCache[cacheHash]
             generatedModuleCode = cacheItem.code
         else:
-- 
2.43.0


From 259d4610ed1faf924cf455217cbce83687d5ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:59 +0000
Subject: [PATCH 17/62] fix: different compilations cannot share a compile
 cache key by running their parts together

---
 Cheetah/Template.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 9d003dd..7a1cb98 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -747,18 +747,17 @@ class Template(Servlet):
                 # compiled module on disk and thereby reduce the startup time
                 # for applications that use a lot of dynamically compiled
                 # templates.
-                cacheHash = ''.join([str(v) for v in
-                                     [hash(source),
-                                      fileHash,
-                                      className,
-                                      moduleName,
-                                      mainMethodName,
-                                      hash(compilerClass),
-                                      hash(baseclass),
-                                      compilerSettingsHash,
-                                      moduleGlobalsHash,
-                                      hash(cacheDirForModuleFiles),
-                                      ]])
+                cacheHash = (hash(source),
+                             fileHash,
+                             className,
+                             moduleName,
+                             mainMethodName,
+                             hash(compilerClass),
+                             hash(baseclass),
+                             compilerSettingsHash,
+                             moduleGlobalsHash,
+                             hash(cacheDirForModuleFiles),
+                             )
             except Exception:
                 # @@TR: should add some logging to this
                 pass
-- 
2.43.0


From 2098fa537aa0a22dc7118266bff259742cab27a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:32 +0000
Subject: [PATCH 18/62] fix: settings or globals that cannot be hashed only
 disable the compile cache

---
 Cheetah/Template.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 7a1cb98..5d05dec 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -727,14 +727,6 @@ class Template(Servlet):
         cacheHash = None
         cacheItem = None
         if source or isinstance(file, string_type):
-            compilerSettingsHash = None
-            if compilerSettings:
-                compilerSettingsHash = hashDict(compilerSettings)
-
-            moduleGlobalsHash = None
-            if moduleGlobals:
-                moduleGlobalsHash = hashDict(moduleGlobals)
-
             fileHash = None
             if file:
                 fileHash = str(hash(file))
@@ -742,6 +734,14 @@ class Template(Servlet):
                     fileHash += str(os.path.getmtime(file))
 
             try:
+                compilerSettingsHash = None
+                if compilerSettings:
+                    compilerSettingsHash = hashDict(compilerSettings)
+
+                moduleGlobalsHash = None
+                if moduleGlobals:
+                    moduleGlobalsHash = hashDict(moduleGlobals)
+
                 # @@TR: find some way to create a cacheHash that is consistent
                 # between process restarts.  It would allow for caching the
                 # compiled module on disk and thereby reduce the startup time
-- 
2.43.0


From a16fd4ed01421c2317db9b55df1df88fb30fb412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:32 +0000
Subject: [PATCH 19/62] fix: path hash and modification time are separate parts
 of the compile cache key

---
 Cheetah/Template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 5d05dec..ba1848f 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -729,9 +729,9 @@ class Template(Servlet):
         if source or isinstance(file, string_type):
             fileHash = None
             if file:
-                fileHash = str(hash(file))
+                fileHash = hash(file)
                 if globals()['__checkFileMtime']:
-                    fileHash += str(os.path.getmtime(file))
+                    fileHash = (fileHash, os.path.getmtime(file))
 
             try:
                 compilerSettingsHash = None
-- 
2.43.0


From d7ec369fe792bb4a7c4fe9ca2a82bbc998288682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:32 +0000
Subject: [PATCH 20/62] fix: prioritizeSearchListOverSelf accepts a tuple as
 searchList

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index ba1848f..7386bbb 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1572,7 +1572,7 @@ class Template(Servlet):
             if searchList is not None:
                 if isinstance(compilerSettings, dict) and \
                         compilerSettings.get('prioritizeSearchListOverSelf'):
-                    self._CHEETAH__searchList = searchList + \
+                    self._CHEETAH__searchList = list(searchList) + \
                         self._CHEETAH__searchList
                 else:
                     self._CHEETAH__searchList.extend(list(searchList))
-- 
2.43.0


From 3f5ae67bf0d03ce8afe45c6b4f70bc9591a47db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:32 +0000
Subject: [PATCH 21/62] fix: the same text included raw and parsed, or as file
 and as source, are different includes

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 7386bbb..bef94a9 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1666,7 +1666,7 @@ class Template(Servlet):
                               includeFrom='file', raw=False):
         """Called at runtime to handle #include directives.
         """
-        _includeID = srcArg
+        _includeID = (srcArg, includeFrom, bool(raw))
         if _includeID not in self._CHEETAH__cheetahIncludes:
             if not raw:
                 if includeFrom == 'file':
-- 
2.43.0


From 7092b0c98b935575b4b46084bde51649c5eba5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:32 +0000
Subject: [PATCH 22/62] fix: compiling a template which imports a module that
 compiles templates no longer deadlocks

---
 Cheetah/Template.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index bef94a9..5125984 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -113,11 +113,15 @@ def hashDict(d):
 ###############################################################################
 # MODULE GLOBALS AND CONSTANTS
 
+# names given to modules that are not in sys.modules yet
+_moduleNamesInUse = set()
+
+
 def _genUniqueModuleName(baseModuleName):
     """The calling code is responsible for concurrency locking.
     """
     finalName = baseModuleName
-    while finalName in sys.modules:
+    while finalName in sys.modules or finalName in _moduleNamesInUse:
         finalName = ('cheetah_%s_%s_%s' % (baseModuleName,
                                            str(time.time()).replace('.', '_'),
                                            str(randrange(10000, 99999))))
@@ -796,9 +800,16 @@ class Template(Servlet):
                 cacheItem.lastCheckoutTime = time.time()
                 return cacheItem.klass
 
+            # Only choose the name while holding the lock: running the module
+            # can import modules which compile templates themselves.
+            klass._CHEETAH_compileLock.acquire()
             try:
-                klass._CHEETAH_compileLock.acquire()
                 uniqueModuleName = _genUniqueModuleName(moduleName)
+                _moduleNamesInUse.add(uniqueModuleName)
+            finally:
+                klass._CHEETAH_compileLock.release()
+
+            try:
                 # relative file path with no dir part
                 __file__ = uniqueModuleName + '.py'
 
@@ -844,7 +855,7 @@ class Template(Servlet):
                 ##
                 sys.modules[uniqueModuleName] = mod
             finally:
-                klass._CHEETAH_compileLock.release()
+                _moduleNamesInUse.discard(uniqueModuleName)
 
             templateClass = getattr(mod, className)
 
-- 
2.43.0


From c6be2f2ba41aa5fb7196833697c2022540e71c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:11 +0000
Subject: [PATCH 23/62] fix: a template method can declare the trans argument
 itself

---
 Cheetah/Compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 6911ad2..fd66afa 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1123,7 +1123,9 @@ class AutoMethodCompiler(MethodCompiler):
                 self.addMethArg('**KWS', None)
             self._kwargsName = kwargsName
 
-            if not self._useKWsDictArgForPassingTrans():
+            if 'trans' in [arg[0] for arg in self._argStringList]:
+                pass
+            elif not self._useKWsDictArgForPassingTrans():
                 if not kwargsName and not positionalArgsListName:
                     self.addMethArg('trans', 'None')
                 else:
-- 
2.43.0


From a96716523cc1ab2ec7a8303af23776aa4f7d4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:11 +0000
Subject: [PATCH 24/62] fix: class and static template methods with their own
 keyword argument dictionary, or without one

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index fd66afa..815a02e 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1174,7 +1174,7 @@ class AutoMethodCompiler(MethodCompiler):
             elif not self.isClassMethod() and not self.isStaticMethod():
                 self.addChunk('SL = self._CHEETAH__searchList')
             else:
-                self.addChunk('SL = [KWS]')
+                self.addChunk('SL = [%s]' % (self._kwargsName or ''))
         if self.setting('useFilters'):
             if self.isClassMethod() or self.isStaticMethod():
                 self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
-- 
2.43.0


From eeab152afe5258bb9a869e24b3affd35eb7fa92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:44 +0000
Subject: [PATCH 25/62] fix: #encoding must not evaluate the template source
 while it is compiled

---
 Cheetah/Compiler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 815a02e..5b9a9d8 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1724,9 +1724,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
                     if isinstance(source, bytes):
                         source = source.decode(encoding)
                     else:
-                        source = eval(
-                            repr(source).encode("ascii", "backslashreplace")
-                            .decode(encoding))
+                        # the source is decoded already
+                        codecs.lookup(encoding)
             else:
                 source = unicode(source)
 
-- 
2.43.0


From d3d0baee0023eaf54b571a20ebb72b6404c2fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:45 +0000
Subject: [PATCH 26/62] fix: #indent chars= works and takes a literal, it does
 not evaluate template text while compiling

---
 Cheetah/Utils/Indenter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Utils/Indenter.py b/Cheetah/Utils/Indenter.py
index c722040..3798149 100644
--- a/Cheetah/Utils/Indenter.py
+++ b/Cheetah/Utils/Indenter.py
@@ -10,6 +10,7 @@ searchList and another one being found.  The directive syntax will
 soon be changed somewhat.
 """
 
+import ast
 import re
 
 
@@ -60,10 +61,10 @@ class IndentProcessor(object):
                         "$self._CHEETAH__indenter.setLevel(%(level)d)" \
                         % {"level": level}
                 elif args.startswith('chars'):
-                    self.indentChars = eval(args.split('=')[1])
+                    chars = ast.literal_eval(args.split('=', 1)[1].strip())
                     line = "#silent " \
-                        "$self._CHEETAH__indenter.setChars(%(level)d)" \
-                        % {"level": level}
+                        "$self._CHEETAH__indenter.setChar(%(chars)r)" \
+                        % {"chars": chars}
                 elif args.startswith(self.PUSH):
                     line = "#silent $self._CHEETAH__indenter.push()"
                 elif args.startswith(self.POP):
-- 
2.43.0


From 6677e231409ce6fc6b1aeab2cc910c0a4402d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:45 +0000
Subject: [PATCH 27/62] fix: every template instance has its own stack of
 #indent levels

---
 Cheetah/Utils/Indenter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Utils/Indenter.py b/Cheetah/Utils/Indenter.py
index 3798149..d9d59be 100644
--- a/Cheetah/Utils/Indenter.py
+++ b/Cheetah/Utils/Indenter.py
@@ -95,7 +95,9 @@ class Indenter(object):
     On = 1
     Level = 0
     Chars = '    '
-    LevelStack = []
+
+    def __init__(self):
+        self.LevelStack = []
 
     def on(self):
         self.On = 1
-- 
2.43.0


From 49641c37227755af0164c69f7508cc786d374b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:10 +0000
Subject: [PATCH 28/62] fix: compiling a template with macros does not change
 the caller's settings

---
 Cheetah/Parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 6114d0a..04113e9 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1474,7 +1474,7 @@ class _HighLevelParser(_LowLevelParser):
         for directiveName in self.setting('closeableDirectives', []):
             self._closeableDirectives.append(directiveName)
 
-        macroDirectives = self.setting('macroDirectives', {})
+        macroDirectives = dict(self.setting('macroDirectives', {}))
         macroDirectives['i18n'] = I18n
 
         for macroName, callback in macroDirectives.items():
@@ -2401,8 +2401,8 @@ class _HighLevelParser(_LowLevelParser):
         from .Template import Template
         templateAPIClass = self.setting('templateAPIClassForDefMacro',
                                         default=Template)
-        compilerSettings = self.setting('compilerSettingsForDefMacro',
-                                        default={})
+        compilerSettings = dict(self.setting('compilerSettingsForDefMacro',
+                                             default={}))
         searchListForMacros = self.setting('searchListForDefMacro', default=[])
         # copy to avoid mutation bugs
         searchListForMacros = list(searchListForMacros)
-- 
2.43.0


From 8f43dcf7918b30b30c83f6353c3739e7ba898c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:57 +0000
Subject: [PATCH 29/62] fix: preprocessors do not change the dictionaries they
 were configured with

---
 Cheetah/Template.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 5125984..f45efc8 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -968,8 +968,8 @@ class Template(Servlet):
                 'Preprocessor requires either a "tokens" '
                 'or a "compilerSettings" arg. Neither was provided.')
 
-        if not hasattr(settings, 'templateInitArgs'):
-            settings.templateInitArgs = {}
+        settings.templateInitArgs = dict(
+            getattr(settings, 'templateInitArgs', {}))
         if 'searchList' not in settings.templateInitArgs:
             if not hasattr(settings, 'searchList') \
                     and hasattr(settings, 'namespaces'):
@@ -988,8 +988,8 @@ class Template(Servlet):
                 pass
             settings.templateAPIClass = PreprocessTemplateAPIClass
 
-        if not hasattr(settings, 'compilerSettings'):
-            settings.compilerSettings = {}
+        settings.compilerSettings = dict(
+            getattr(settings, 'compilerSettings', {}))
 
         klass._updateSettingsWithPreprocessTokens(
             compilerSettings=settings.compilerSettings,
-- 
2.43.0


From 5c5d9839e3720c59584d401c96d78c0bc4691050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:23 +0000
Subject: [PATCH 30/62] fix: a mapping item that cannot be fetched no longer
 crashes the C NameMapper

---
 Cheetah/c/_namemapper.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 52a9293..692f2f6 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -187,6 +187,12 @@ static PyObject *PyNamemapper_valueForName(PyObject *obj, char *nameChunks[], in
         #else
         if (PyMapping_Check(currentVal) && PyMapping_HasKeyString(currentVal, currentKey)) {
             nextVal = PyMapping_GetItemString(currentVal, currentKey);
+            if (nextVal == NULL) {  /* the key was there, getting it failed */
+                if (i > 0) {
+                    Py_DECREF(currentVal);
+                }
+                return NULL;
+            }
         #endif
 
         } else {
-- 
2.43.0


From adaaad2867f11ec6e75f9c7d017d02b70b887511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:23 +0000
Subject: [PATCH 31/62] fix: the C NameMapper neither leaks nor drops the value
 of a NotFound exception it wraps

---
 Cheetah/c/_namemapper.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 692f2f6..4e4a110 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -57,15 +57,16 @@ static int wrapInternalNotFoundException(char *fullName, PyObject *namespace)
 
         if (isAlreadyWrapped != NULL) {
             if (PyLong_AsLong(isAlreadyWrapped) == -1) {
-                newExcValue = PyUnicode_FromFormat("%U while searching for \'%s\'",
+                newExcValue = PyUnicode_FromFormat("%S while searching for \'%s\'",
                         excValue, fullName);
             }
             Py_DECREF(isAlreadyWrapped);
         }
-        else {
-           newExcValue = excValue;
+        if (newExcValue != NULL) {
+            Py_DECREF(excValue);
+            excValue = newExcValue;
         }
-        PyErr_Restore(excType, newExcValue, excTraceback);
+        PyErr_Restore(excType, excValue, excTraceback);
         return -1;
     }
     return 0;
-- 
2.43.0


From 31ee674d60ebdaba235935927f292544283eb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:23 +0000
Subject: [PATCH 32/62] fix: check allocations in the C NameMapper

---
 Cheetah/c/_namemapper.c | 7 +++++--
 Cheetah/c/_namemapper.h | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 4e4a110..d8309bd 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -424,7 +424,7 @@ static PyObject *namemapper_valueFromFrameOrSearchList(PyObject *self, PyObject
 
     excString = Py_BuildValue("s", "[locals()]+searchList+[globals(), __builtins__]");
     setNotFoundException(nameChunks[0], excString);
-    Py_DECREF(excString);
+    Py_XDECREF(excString);
 
 done:
     Py_XDECREF(iterator);
@@ -474,7 +474,7 @@ static PyObject *namemapper_valueFromFrame(PyObject *self, PyObject *args, PyObj
 
     excString = Py_BuildValue("s", "[locals(), globals(), __builtins__]");
     setNotFoundException(nameChunks[0], excString);
-    Py_DECREF(excString);
+    Py_XDECREF(excString);
 done:
     free(nameCopy);
     return theValue;
@@ -511,6 +511,9 @@ static struct PyModuleDef namemappermodule = {
 PyMODINIT_FUNC PyInit__namemapper(void)
 {
     PyObject *m = PyModule_Create(&namemappermodule);
+    if (m == NULL) {
+        return NULL;
+    }
 #else
 DL_EXPORT(void) init_namemapper(void)
 {
diff --git a/Cheetah/c/_namemapper.h b/Cheetah/c/_namemapper.h
index 1a7eecb..17e702f 100644
--- a/Cheetah/c/_namemapper.h
+++ b/Cheetah/c/_namemapper.h
@@ -52,6 +52,9 @@
 #define ALLOW_WRAPPING_OF_NOTFOUND_EXCEPTIONS 1
 #define createNameCopyAndChunks() {\
     nameCopy = malloc(strlen(name) + 1);\
+    if (nameCopy == NULL) {\
+        return PyErr_NoMemory();\
+    }\
     tmpPntr1 = name; \
     tmpPntr2 = nameCopy;\
     while ((*tmpPntr2++ = *tmpPntr1++)); \
-- 
2.43.0


From 0156972c18994a78a3c41e00a34939ba3ce26e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 33/62] fix: MemoryCacheStore.replace replaces existing values,
 not missing ones

---
 Cheetah/CacheStore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 00b77ec..f92dc63 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -52,8 +52,8 @@ class MemoryCacheStore(AbstractCacheStore):
         self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
-        if key in self._data:
-            raise Error('a value for key %r is already in the cache' % key)
+        if key not in self._data:
+            raise Error('there is no value for key %r in the cache' % key)
         self._data[key] = (val, time)
 
     def delete(self, key):
-- 
2.43.0


From dd41106c524c070a258b6e985c16b5f09f268784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 34/62] fix: MemcachedCacheStore.add and replace do not fail
 after having stored the value

---
 Cheetah/CacheStore.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index f92dc63..53099e0 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -87,13 +87,11 @@ class MemcachedCacheStore(AbstractCacheStore):
         res = self._client.add(key, val, time)
         if not res:
             raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
         res = self._client.replace(key, val, time)
         if not res:
-            raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
+            raise Error('there is no value for key %r in the cache' % key)
 
     def delete(self, key):
         res = self._client.delete(key, time=0)
-- 
2.43.0


From bc1cce020e8387cf6fafb74d7c78ece21328367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 35/62] fix: clearing a cache item which has no stored data
 does not stop the clearing of the others

---
 Cheetah/CacheRegion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 153aec9..416ace8 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -68,8 +68,11 @@ class CacheItem(object):
         return self.getData() or ""
 
     def clear(self):
-        self._cacheStore.delete(self._cacheItemID)
         self._refreshTime = None
+        try:
+            self._cacheStore.delete(self._cacheItemID)
+        except KeyError:  # never stored, or expired
+            pass
 
 
 class _CacheDataStoreWrapper(object):
-- 
2.43.0


From 644221d09c6f8e1a14110bb01ed3cc7bd6aedbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 36/62] fix: #cache varyBy accepts non-ASCII values

---
 Cheetah/CacheRegion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 416ace8..aed39f1 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -132,7 +132,8 @@ class CacheRegion(object):
 
             Returns a `CacheItem` instance.
         """
-        cacheItemID = md5(str(cacheItemID).encode('ascii')).hexdigest()
+        cacheItemID = md5(
+            str(cacheItemID).encode('utf-8', 'surrogatepass')).hexdigest()
 
         if cacheItemID not in self._cacheItems:
             cacheItem = self._cacheItemClass(
-- 
2.43.0


From 16ee72ff2fa347df1ca74a071da67656eafc700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:05 +0000
Subject: [PATCH 37/62] fix: generatedModuleCode() of a template that does not
 derive from Template

---
 Cheetah/Template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index f45efc8..5d8e94e 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -310,7 +310,8 @@ class Template(Servlet):
     _CHEETAH_requiredCheetahClassMethods = ('subclass',)
     _CHEETAH_requiredCheetahClassAttributes = (
         'cacheRegionClass', 'cacheStore',
-        'cacheStoreIdPrefix', 'cacheStoreClass')
+        'cacheStoreIdPrefix', 'cacheStoreClass',
+        'generatedModuleCode')
 
     # The following are used by .compile().
     # Most are documented in its docstring.
-- 
2.43.0


From 91408b2760c8b9747ec3bbd43adcf9386346f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:10 +0000
Subject: [PATCH 38/62] fix: #filter in a template compiled with useFilters off

---
 Cheetah/Compiler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 5b9a9d8..69bc7e9 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1175,11 +1175,10 @@ class AutoMethodCompiler(MethodCompiler):
                 self.addChunk('SL = self._CHEETAH__searchList')
             else:
                 self.addChunk('SL = [%s]' % (self._kwargsName or ''))
-        if self.setting('useFilters'):
-            if self.isClassMethod() or self.isStaticMethod():
-                self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
-            else:
-                self.addChunk('_filter = self._CHEETAH__currentFilter')
+        if self.isClassMethod() or self.isStaticMethod():
+            self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
+        else:
+            self.addChunk('_filter = self._CHEETAH__currentFilter')
         self.addChunk('')
         self.addChunk("#"*40)  # noqa: E226 missing whitespace around operator
         self.addChunk('## START - generated method body')
-- 
2.43.0


From 98acc0b7b59044b3818db91da6d28ad74382e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:52 +0000
Subject: [PATCH 39/62] fix: #extends with the dotted name of a class whose
 package is imported

---
 Cheetah/Compiler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 69bc7e9..27ec0b7 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1918,9 +1918,7 @@ class ModuleCompiler(SettingsManager, GenUtils):
                     for chunk in chunks[1:-1]:
                         if modName in self.importedVarNames():
                             needToAddImport = False
-                            finalBaseClassName = klass.replace(modName + '.',
-                                                               '')
-                            baseclasses.append(finalBaseClassName)
+                            baseclasses.append(klass)
                             break
                         else:
                             modName += '.' + chunk
-- 
2.43.0


From 3eed12df458122f861cb805e0474d58a7d84739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:01 +0000
Subject: [PATCH 40/62] fix: #set of a variable whose name starts with local,
 global or module

---
 Cheetah/Parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 04113e9..0eb29fc 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2258,14 +2258,16 @@ class _HighLevelParser(_LowLevelParser):
         self.advance(3)
         self.getWhiteSpace()
         style = SET_LOCAL
-        if self.startswith('local'):
+        match = self.matchIdentifier()
+        scope = match and match.group()
+        if scope == 'local':
             self.getIdentifier()
             self.getWhiteSpace()
-        elif self.startswith('global'):
+        elif scope == 'global':
             self.getIdentifier()
             self.getWhiteSpace()
             style = SET_GLOBAL
-        elif self.startswith('module'):
+        elif scope == 'module':
             self.getIdentifier()
             self.getWhiteSpace()
             style = SET_MODULE
-- 
2.43.0


From ccd1d2bc593508bc1ab796e9d1cccf5f5dc1c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:24 +0000
Subject: [PATCH 41/62] fix: #include of a variable whose name starts with raw
 or source

---
 Cheetah/Parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 0eb29fc..143c303 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2332,12 +2332,14 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         includeFrom = 'file'
         isRaw = False
-        if self.startswith('raw'):
+        match = self.matchIdentifier()
+        if match and match.group() == 'raw':
             self.advance(3)
             isRaw = True
 
         self.getWhiteSpace()
-        if self.startswith('source'):
+        match = self.matchIdentifier()
+        if match and match.group() == 'source':
             self.advance(len('source'))
             includeFrom = 'str'
             self.getWhiteSpace()
-- 
2.43.0


From 707f82d0e740bd80f36da3bcaeb76e70ba77d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:59 +0000
Subject: [PATCH 42/62] fix: the KeyError error catcher raises KeyError

---
 Cheetah/ErrorCatchers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/ErrorCatchers.py b/Cheetah/ErrorCatchers.py
index 655cb78..fe09fd0 100644
--- a/Cheetah/ErrorCatchers.py
+++ b/Cheetah/ErrorCatchers.py
@@ -3,6 +3,9 @@ import time
 from .NameMapper import NotFound
 
 
+_KeyError = KeyError  # the builtin exception, shadowed by a catcher below
+
+
 class Error(Exception):
     pass
 
@@ -31,7 +34,7 @@ class BigEcho(ErrorCatcher):
 
 class KeyError(ErrorCatcher):
     def warn(self, exc_val, code, rawCode, lineCol):
-        raise KeyError(
+        raise _KeyError(
             "no '%s' in this Template Object's Search List" % rawCode)
 
 
-- 
2.43.0


From e10c1061ab2a2d52a275159fb82e12fb88dd8c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:46 +0000
Subject: [PATCH 43/62] fix: placeholders before the name mapper is turned off
 in a method

---
 Cheetah/Compiler.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 27ec0b7..7c5f9e7 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1164,17 +1164,18 @@ class AutoMethodCompiler(MethodCompiler):
             self.addChunk('trans = DummyTransaction()')
             self.addChunk('_dummyTrans = True')
         self.addChunk('write = trans.response().write')
-        if self.setting('useNameMapper'):
-            argNames = [arg[0] for arg in self._argStringList]
-            allowSearchListAsMethArg = self.setting('allowSearchListAsMethArg')
-            if allowSearchListAsMethArg and 'SL' in argNames:
-                pass
-            elif allowSearchListAsMethArg and 'searchList' in argNames:
-                self.addChunk('SL = searchList')
-            elif not self.isClassMethod() and not self.isStaticMethod():
-                self.addChunk('SL = self._CHEETAH__searchList')
-            else:
-                self.addChunk('SL = [%s]' % (self._kwargsName or ''))
+        # the setting useNameMapper may have been on when a part of the body
+        # was compiled, so the search list is always there
+        argNames = [arg[0] for arg in self._argStringList]
+        allowSearchListAsMethArg = self.setting('allowSearchListAsMethArg')
+        if allowSearchListAsMethArg and 'SL' in argNames:
+            pass
+        elif allowSearchListAsMethArg and 'searchList' in argNames:
+            self.addChunk('SL = searchList')
+        elif not self.isClassMethod() and not self.isStaticMethod():
+            self.addChunk('SL = self._CHEETAH__searchList')
+        else:
+            self.addChunk('SL = [%s]' % (self._kwargsName or ''))
         if self.isClassMethod() or self.isStaticMethod():
             self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
         else:
-- 
2.43.0


From 6d9b0dd65a59c13f5f0c5504baa1ed0001867d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:30 +0000
Subject: [PATCH 44/62] fix: error catcher reused for the same text compiled
 differently

---
 Cheetah/Compiler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 7c5f9e7..841ff4b 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1481,8 +1481,11 @@ class ClassCompiler(GenUtils):
             % locals())
 
     def addErrorCatcherCall(self, codeChunk, rawCode='', lineCol=''):
-        if rawCode in self._placeholderToErrorCatcherMap:
-            methodName = self._placeholderToErrorCatcherMap[rawCode]
+        # the same text may be compiled to something else after a change of
+        # the compiler settings
+        key = (rawCode, codeChunk)
+        if key in self._placeholderToErrorCatcherMap:
+            methodName = self._placeholderToErrorCatcherMap[key]
             if not self.setting('outputRowColComments'):
                 self._methodsIndex[methodName].addMethDocString(
                     'plus at line %s, col %s' % lineCol)
@@ -1490,7 +1493,7 @@ class ClassCompiler(GenUtils):
 
         self._errorCatcherCount += 1
         methodName = '__errorCatcher' + str(self._errorCatcherCount)
-        self._placeholderToErrorCatcherMap[rawCode] = methodName
+        self._placeholderToErrorCatcherMap[key] = methodName
 
         catcherMeth = self._spawnMethodCompiler(
             methodName,
-- 
2.43.0


From 1425c133d78a842d19189d1d4a89e5b250e8b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:00 +0000
Subject: [PATCH 45/62] fix: #errorCatcher uses the error catcher the template
 was given

---
 Cheetah/Template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 5d8e94e..0d92e87 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1608,12 +1608,14 @@ class Template(Servlet):
         self._CHEETAH__errorCatchers = {}
         if errorCatcher:
             if isinstance(errorCatcher, string_type):
+                errorCatcherName = errorCatcher
                 errorCatcherClass = getattr(ErrorCatchers, errorCatcher)
             elif isinstance(errorCatcher, type):
+                errorCatcherName = errorCatcher.__name__
                 errorCatcherClass = errorCatcher
 
             self._CHEETAH__errorCatcher = ec = errorCatcherClass(self)
-            self._CHEETAH__errorCatchers[errorCatcher.__class__.__name__] = ec
+            self._CHEETAH__errorCatchers[errorCatcherName] = ec
 
         else:
             self._CHEETAH__errorCatcher = None
-- 
2.43.0


From e1428ba318c1aa41d142c4234e2cfac961aec77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 46/62] fix: preprocessor given as an object without tokens

---
 Cheetah/Template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 0d92e87..fa83fcb 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -994,8 +994,8 @@ class Template(Servlet):
 
         klass._updateSettingsWithPreprocessTokens(
             compilerSettings=settings.compilerSettings,
-            placeholderToken=settings.placeholderToken,
-            directiveToken=settings.directiveToken
+            placeholderToken=getattr(settings, 'placeholderToken', None),
+            directiveToken=getattr(settings, 'directiveToken', None)
         )
         return settings
 
-- 
2.43.0


From 286c40f50b500d07d74f896c286ad577c4074fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 47/62] fix: blanks before a directive that is followed by a
 comment

---
 Cheetah/Parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 143c303..8e89a8e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1717,6 +1717,9 @@ class _HighLevelParser(_LowLevelParser):
             if not self.matchDirective():
                 self.setPos(pos)
                 foundComment = True
+                if isLineClearToStartToken:
+                    # before the comment is added after these blanks
+                    self._compiler.handleWSBeforeDirective()
                 self.eatComment()  # this won't gobble the EOL
             else:
                 self.setPos(pos)
-- 
2.43.0


From c172dc3ec78e3aa2f820de35138d8ff5f5c574f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 48/62] fix: text before #raw was lost at its #end

---
 Cheetah/Parser.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 8e89a8e..615bfa7 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1761,16 +1761,11 @@ class _HighLevelParser(_LowLevelParser):
         textEaten = self.readTo(endRawPos, start=startPos)
         self.setPos(finalPos)
 
-        endOfFirstLinePos = self.findEOL()
-
         if self.matchDirectiveEndToken():
             self.getDirectiveEndToken()
         elif isLineClearToStartToken and (not self.atEnd()) \
                 and self.peek() in '\r\n':
             self.readToEOL(gobble=True)
-
-        if isLineClearToStartToken and self.pos() > endOfFirstLinePos:
-            self._compiler.handleWSBeforeDirective()
         return textEaten
 
     def eatSimpleExprDirective(self, directiveName,
-- 
2.43.0


From bf8fab081a3773572a7d3eee6aa483a901639322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 49/62] fix: blanks before #arg became part of the previous
 argument

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 615bfa7..294f1ec 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2603,12 +2603,12 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
-        self._compiler.setCallArg(argName, lineCol)
         if self.peek() == ':':
             self.getc()
         else:
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLinePos)
+        self._compiler.setCallArg(argName, lineCol)
 
     def eatFilter(self):
         isLineClearToStartToken = self.isLineClearToStartToken()
-- 
2.43.0


From 7819c3ef929d0ab6b1fee71efc40634b683b2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 50/62] fix: tokens of nested comments that follow each other

---
 Cheetah/Parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 294f1ec..c6cdb37 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1610,9 +1610,10 @@ class _HighLevelParser(_LowLevelParser):
             elif self.matchMultiLineCommentEndToken():
                 self.getMultiLineCommentEndToken()
                 level -= 1
-            if not level:
-                break
-            self.advance()
+                if not level:
+                    break
+            else:
+                self.advance()
         comm = self.readTo(endPos, start=startPos)
 
         if not self.atEnd():
-- 
2.43.0


From d17ac25dad148077d8aa9f3f52d71a82138e5372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 51/62] fix: cheetah --parallel took a killed child for a
 success

---
 Cheetah/CheetahWrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 8c85a71..3774ba4 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -389,6 +389,8 @@ you do have write permission to and re-run the tests.""")
             def child_wait():
                 pid, status = os.wait()
                 pid_pool.remove(pid)
+                if os.WIFSIGNALED(status):
+                    return 128 + os.WTERMSIG(status)
                 return os.WEXITSTATUS(status)
 
             while bundles:
-- 
2.43.0


From d67cf472a964de3be6422b0d84aebbff2822f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 52/62] fix: `cheetah fill -` ignored --env, --pickle and
 --json

---
 Cheetah/CheetahWrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 3774ba4..9214bb3 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -598,6 +598,7 @@ you do have write permission to and re-run the tests.""")
             output = pysrc if PY2 else pysrc.decode()
         else:
             output = str(TemplateClass(file=sys.stdin,
+                                       searchList=self.searchList,
                                        compilerSettings=compilerSettings))
         sys.stdout.write(output)
 
-- 
2.43.0


From 4f0b35cc589ecf58939296303591ff17a491dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 53/62] fix: `cheetah --stdout` made backups and directories

---
 Cheetah/CheetahWrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 9214bb3..e9cc8cd 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -612,7 +612,8 @@ you do have write permission to and re-run the tests.""")
         dstDir = os.path.dirname(dst)
         what = self.isCompile and "Compiling" or "Filling"
         C("%s %s -> %s^", what, src, dst)  # No trailing newline.
-        if os.path.exists(dst) and not self.opts.nobackup:
+        if os.path.exists(dst) and not self.opts.nobackup \
+                and not self.opts.stdout:
             bak = b.bak
             C(" (backup %s)", bak)  # On same line as previous message.
         else:
@@ -638,7 +639,7 @@ be named according to the same rules as Python modules.""" % tup)
 
         if bak:
             shutil.copyfile(dst, bak)
-        if dstDir and not os.path.exists(dstDir):
+        if dstDir and not os.path.exists(dstDir) and not self.opts.stdout:
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-- 
2.43.0


From 2d972b6ff94011166829f89b7f90659e57f00df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 54/62] fix: `cheetah compile --stdout` of a template with
 #encoding

---
 Cheetah/CheetahWrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index e9cc8cd..7e67cd8 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -647,8 +647,8 @@ be named according to the same rules as Python modules.""" % tup)
         if self.opts.stdout:
             if not PY2:
                 encoding = self.opts.encoding
-                if encoding and isinstance(output, bytes):
-                    output = output.decode(encoding)
+                if isinstance(output, bytes):
+                    output = output.decode(encoding or 'utf-8')
             sys.stdout.write(output)
         else:
             encoding = self.opts.encoding
-- 
2.43.0


From 50fd201aca7cc66a7168642ba0b4111f75537f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:30 +0000
Subject: [PATCH 55/62] fix: compile cache took -1 and -2, or 1 and True, for
 the same value

---
 Cheetah/Template.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index fa83fcb..0353c87 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -88,26 +88,35 @@ class PreprocessError(Error):
 
 
 def hashList(v_list):
+    """Return a hashable value that is the same only for the same list:
+    hash(-1) == hash(-2) and 1 == True.
+    """
     hashedList = []
     for v in v_list:
+        valueType = type(v)
         if isinstance(v, dict):
             v = hashDict(v)
-        elif isinstance(v, list):
+        elif isinstance(v, (list, tuple)):
             v = hashList(v)
-        hashedList.append(v)
-    return hash(tuple(hashedList))
+        hashedList.append((valueType, v))
+    hashedList = tuple(hashedList)
+    hash(hashedList)  # TypeError if there is a value that is not hashable
+    return hashedList
 
 
 def hashDict(d):
     items = sorted(d.items())
     hashedList = []
     for k, v in items:
+        valueType = type(v)
         if isinstance(v, dict):
             v = hashDict(v)
-        elif isinstance(v, list):
+        elif isinstance(v, (list, tuple)):
             v = hashList(v)
-        hashedList.append((k, v))
-    return hash(tuple(hashedList))
+        hashedList.append((k, valueType, v))
+    hashedList = tuple(hashedList)
+    hash(hashedList)  # TypeError if there is a value that is not hashable
+    return hashedList
 
 
 ###############################################################################
-- 
2.43.0


From 8f5c2a9be46e41fa70d5dfcf6e25dafaa4de437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:21 +0000
Subject: [PATCH 56/62] fix: a compiler setting with an empty value raised an
 IndexError

---
 Cheetah/SettingsManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 91b6002..767ddb6 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -49,7 +49,7 @@ def stringIsNumber(S):
 
     S = S.strip()
 
-    if S[0] in '-+' and len(S) > 1:
+    if S[:1] in ('-', '+') and len(S) > 1:
         S = S[1:].strip()
 
     match = complexNumberRE.match(S)
-- 
2.43.0


From b0da4ebbc332d21cf7452374bdf5bf49e8415f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:21 +0000
Subject: [PATCH 57/62] fix: a '%' in #compiler-settings was taken for an
 interpolation

---
 Cheetah/SettingsManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 767ddb6..97f7cc0 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -164,7 +164,7 @@ class _SettingsCollector(object):
             newSettings[s] = {}
             for o in p.options(s):
                 if o != '__name__':
-                    newSettings[s][o] = p.get(s, o)
+                    newSettings[s][o] = p.get(s, o, raw=True)
 
         # loop through new settings -> deal with global settings, numbers,
         # booleans and None ++ also deal with 'importSettings' commands
-- 
2.43.0


From c9ed0eb5a7f6a3d2a70b32c50b1945895af09fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:15 +0000
Subject: [PATCH 58/62] fix: 'else if' inside a string of an #elif or #else if
 was rewritten

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 841ff4b..1fc0f34 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -666,7 +666,7 @@ class MethodCompiler(GenUtils):
         self.dedent()
 
     def addElse(self, expr, dedent=True, lineCol=None):
-        expr = re.sub(r'else[ \f\t]+if', 'elif', expr)
+        expr = re.sub(r'^else[ \f\t]+if\b', 'elif', expr)
         self.addReIndentingDirective(expr, dedent=dedent, lineCol=lineCol)
 
     def addElif(self, expr, dedent=True, lineCol=None):
-- 
2.43.0


From c90fa54318e53109b9f0b4dc4498dce5ab37ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:46 +0000
Subject: [PATCH 59/62] fix: '=' and '==' inside the default of a #def argument
 were dropped

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index c6cdb37..cdaa273 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1100,7 +1100,7 @@ class _LowLevelParser(SourceReader):
                 if onDefVal:
                     argList.add_default(c)
                 self.advance()
-            elif c == '=':
+            elif c == '=' and not onDefVal:
                 onDefVal = True
                 self.advance()
             elif c == ",":
-- 
2.43.0


From 723a13005c018e2a62405d9791a0f8ab3d80b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:46 +0000
Subject: [PATCH 60/62] fix: an empty c'' string, or one with an escape, failed
 to compile

---
 Cheetah/Parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index cdaa273..2777ac7 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1273,11 +1273,11 @@ class _LowLevelParser(SourceReader):
         """
         if token == 'c' and not self.atEnd() and self.peek() in '\'"':
             nextToken = self.getPyToken()
-            token = nextToken.upper()
+            token = nextToken
             theStr = eval(token)
             endPos = self.pos()
             if not theStr:
-                return
+                return token
 
             if token.startswith(single3) or token.startswith(double3):
                 startPosIdx = 3
-- 
2.43.0


From cc07effec738ab72b3bcadcc17048eacd3438964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:21 +0000
Subject: [PATCH 61/62] fix: a line end inside an expression joined the words
 on both sides

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 2777ac7..b173dd5 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1212,9 +1212,11 @@ class _LowLevelParser(SourceReader):
                 if not eolMatch:
                     self.advance()
                     raise ParseError(self, msg='Line ending expected')
+                exprBits.append(' ')
                 self.setPos(eolMatch.end())
             elif c in '\r\n':
                 if enclosures:
+                    exprBits.append(' ')
                     self.advance()
                 else:
                     break
-- 
2.43.0


From e7c04a950f3f9354d8933667ddbc25407148ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:46 +0000
Subject: [PATCH 62/62] fix: WebSafe escaped its own entities again for
 characters given in also

---
 Cheetah/Filters.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/Cheetah/Filters.py b/Cheetah/Filters.py
index 6d0f600..6bba6f5 100755
--- a/Cheetah/Filters.py
+++ b/Cheetah/Filters.py
@@ -139,21 +139,15 @@ class WebSafe(Filter):
     """
     def filter(self, val, **kw):
         s = super(WebSafe, self).filter(val, **kw)
-        # These substitutions are copied from cgi.escape().
-        s = s.replace("&", "&amp;")  # Must be done first!
-        s = s.replace("<", "&lt;")
-        s = s.replace(">", "&gt;")
-        # Process the additional transformations if any.
-        if 'also' in kw:
-            also = kw['also']
-            entities = webSafeEntities   # Global variable.
-            for k in also:
-                if k in entities:
-                    v = entities[k]
-                else:
-                    v = "&#%s;" % ord(k)
-                s = s.replace(k, v)
-        return s
+        entities = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
+        # Add the additional transformations if any.
+        for k in kw.get('also', ''):
+            if k in webSafeEntities:
+                entities[k] = webSafeEntities[k]
+            elif k not in entities:
+                entities[k] = "&#%s;" % ord(k)
+        # In one pass, so that nothing is escaped twice.
+        return "".join([entities.get(c, c) for c in s])
 
 
 class Strip(Filter):
-- 
2.43.0

