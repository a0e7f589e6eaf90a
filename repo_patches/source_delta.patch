From 83837f2c1f2ee3fcfc31fca8d4e539ffbe9d039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:07 +0000
Subject: [PATCH 01/97] fix: a trailing comment no longer keeps the indentation
 of a directive line

---
 Cheetah/Parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3b7c4b1..67c0b5f 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1711,6 +1711,9 @@ class _HighLevelParser(_LowLevelParser):
             if not self.matchDirective():
                 self.setPos(pos)
                 foundComment = True
+                if isLineClearToStartToken:
+                    # must come before the comment is added to the code
+                    self._compiler.handleWSBeforeDirective()
                 self.eatComment()  # this won't gobble the EOL
             else:
                 self.setPos(pos)
-- 
2.43.0


From 931809076a4331aac5dc0cb7593ad636f0dae354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 02/97] fix: a line ending inside an expression separates its
 tokens

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 67c0b5f..276b99b 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1212,9 +1212,11 @@ class _LowLevelParser(SourceReader):
                     self.advance()
                     raise ParseError(self, msg='Line ending expected')
                 self.setPos(eolMatch.end())
+                exprBits.append(' ')  # a line ending separates tokens
             elif c in '\r\n':
                 if enclosures:
                     self.advance()
+                    exprBits.append(' ')
                 else:
                     break
             elif self.matchCheetahVarInExpressionStartToken():
-- 
2.43.0


From cd26ceb87673fb1b39ce92d398a7821a6c91f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 03/97] fix: #del $var deletes the local variable instead of
 failing to compile

---
 Cheetah/Parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 276b99b..9e23def 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1778,7 +1778,11 @@ class _HighLevelParser(_LowLevelParser):
         if not includeDirectiveNameInExpr:
             self.advance(len(directiveName))
         startPos = self.pos()
-        expr = self.getExpression().strip()
+        if directiveName == 'del':
+            # the targets are local variables
+            expr = self.getExpression(useNameMapper=False).strip()
+        else:
+            expr = self.getExpression().strip()
         directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
-- 
2.43.0


From 68a8ae95dd7ce15c1f25b7f1254b589990d9b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 04/97] fix: adjacent start and end tokens of nested multi-line
 comments are all seen

---
 Cheetah/Parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 9e23def..881c206 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1606,9 +1606,10 @@ class _HighLevelParser(_LowLevelParser):
             elif self.matchMultiLineCommentEndToken():
                 self.getMultiLineCommentEndToken()
                 level -= 1
-            if not level:
-                break
-            self.advance()
+                if not level:
+                    break
+            else:
+                self.advance()
         comm = self.readTo(endPos, start=startPos)
 
         if not self.atEnd():
-- 
2.43.0


From 7e8479738b5d944c08eaaced52b29bf0716ff1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:09 +0000
Subject: [PATCH 05/97] fix: text after a closed ${expression} is not read as
 part of it

---
 Cheetah/Parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 881c206..329447c 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1159,10 +1159,15 @@ class _LowLevelParser(SourceReader):
 
         if enclosures is None:
             enclosures = []
+        # an enclosure opened by the caller ends the expression when it is
+        # closed, whatever follows it
+        openedByCaller = bool(enclosures)
 
         srcLen = len(self)
         exprBits = []
         while True:
+            if openedByCaller and not enclosures:
+                break
             if self.atEnd():
                 if enclosures:
                     open = enclosures[-1][0]
-- 
2.43.0


From a51899ed43cb9b1a94daffd3517e5178fec7b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:34 +0000
Subject: [PATCH 06/97] fix: the C NameMapper no longer dereferences NULL when
 a mapping loses a key during the lookup

---
 Cheetah/c/_namemapper.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 52a9293..b91e902 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -188,7 +188,12 @@ static PyObject *PyNamemapper_valueForName(PyObject *obj, char *nameChunks[], in
         if (PyMapping_Check(currentVal) && PyMapping_HasKeyString(currentVal, currentKey)) {
             nextVal = PyMapping_GetItemString(currentVal, currentKey);
         #endif
-
+            if (nextVal == NULL) { /* the item is gone or can't be fetched */
+                if (i > 0) {
+                    Py_DECREF(currentVal);
+                }
+                return NULL;
+            }
         } else {
         #if PY_VERSION_HEX >= 0x030d0000
             if ((PyErr_Occurred() != NULL) &&
-- 
2.43.0


From b47928f11469688c7e46d25d6c7b8291c3fd50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:34 +0000
Subject: [PATCH 07/97] fix: NotFound from the C NameMapper names the full name
 again

---
 Cheetah/c/_namemapper.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index b91e902..a6bdca1 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -42,7 +42,7 @@ static void setNotFoundException(char *key, PyObject *namespace)
 static int wrapInternalNotFoundException(char *fullName, PyObject *namespace)
 {
     PyObject *excType, *excValue, *excTraceback, *isAlreadyWrapped = NULL;
-    PyObject *newExcValue = NULL;
+    PyObject *excStr = NULL, *newExcValue = NULL;
     if (!ALLOW_WRAPPING_OF_NOTFOUND_EXCEPTIONS) {
         return 0;
     }
@@ -53,19 +53,24 @@ static int wrapInternalNotFoundException(char *fullName, PyObject *namespace)
 
     if (PyErr_GivenExceptionMatches(PyErr_Occurred(), NotFound)) {
         PyErr_Fetch(&excType, &excValue, &excTraceback);
-        isAlreadyWrapped = PyObject_CallMethod(excValue, "find", "s", "while searching");
-
+        /* excValue is either the message or an exception instance */
+        excStr = PyObject_Str(excValue);
+        if (excStr != NULL) {
+            isAlreadyWrapped = PyObject_CallMethod(excStr, "find", "s", "while searching");
+        }
         if (isAlreadyWrapped != NULL) {
             if (PyLong_AsLong(isAlreadyWrapped) == -1) {
                 newExcValue = PyUnicode_FromFormat("%U while searching for \'%s\'",
-                        excValue, fullName);
+                        excStr, fullName);
             }
             Py_DECREF(isAlreadyWrapped);
         }
-        else {
-           newExcValue = excValue;
+        Py_XDECREF(excStr);
+        if (newExcValue != NULL) {
+            Py_XDECREF(excValue);
+            excValue = newExcValue;
         }
-        PyErr_Restore(excType, newExcValue, excTraceback);
+        PyErr_Restore(excType, excValue, excTraceback);
         return -1;
     }
     return 0;
-- 
2.43.0


From d937405d5f52da6de33d3be912185ba4cf7b7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:34 +0000
Subject: [PATCH 08/97] fix: the C NameMapper reports an exception raised by an
 attribute instead of skipping the namespace

---
 Cheetah/c/_namemapper.c | 23 ++++++++++++++++++-----
 Cheetah/c/_namemapper.h | 10 +++++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index a6bdca1..8d4b33b 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -142,14 +142,25 @@ static int getNameChunks(char *nameChunks[], char *name, char *nameCopy)
 }
 
 
+/* returns TRUE, FALSE or -1 with an exception set: only an AttributeError means
+   that the attribute does not exist */
 static int PyNamemapper_hasKey(PyObject *obj, char *key)
 {
+    PyObject *theValue = NULL;
+
     if (PyMapping_Check(obj) && PyMapping_HasKeyString(obj, key)) {
         return TRUE;
-    } else if (PyObject_HasAttrString(obj, key)) {
+    }
+    theValue = PyObject_GetAttrString(obj, key);
+    if (theValue != NULL) {
+        Py_DECREF(theValue);
         return TRUE;
     }
-    return FALSE;
+    if (PyErr_ExceptionMatches(PyExc_AttributeError)) {
+        PyErr_Clear();
+        return FALSE;
+    }
+    return -1;
 }
 
 
@@ -159,10 +170,12 @@ static PyObject *PyNamemapper_valueForKey(PyObject *obj, char *key)
 
     if (PyMapping_Check(obj) && PyMapping_HasKeyString(obj, key)) {
         theValue = PyMapping_GetItemString(obj, key);
-    } else if (PyObject_HasAttrString(obj, key)) {
-        theValue = PyObject_GetAttrString(obj, key);
     } else {
-        setNotFoundException(key, obj);
+        theValue = PyObject_GetAttrString(obj, key);
+        if (theValue == NULL && PyErr_ExceptionMatches(PyExc_AttributeError)) {
+            PyErr_Clear();
+            setNotFoundException(key, obj);
+        }
     }
     return theValue;
 }
diff --git a/Cheetah/c/_namemapper.h b/Cheetah/c/_namemapper.h
index 1a7eecb..58c000c 100644
--- a/Cheetah/c/_namemapper.h
+++ b/Cheetah/c/_namemapper.h
@@ -63,7 +63,15 @@
 }
 
 #define checkForNameInNameSpaceAndReturnIfFound(namespace_decref) { \
-    if ( PyNamemapper_hasKey(nameSpace, nameChunks[0]) ) {\
+    int hasKey = PyNamemapper_hasKey(nameSpace, nameChunks[0]);\
+    if (hasKey < 0) {\
+        if (namespace_decref) {\
+            Py_DECREF(nameSpace);\
+        }\
+        theValue = NULL;\
+        goto done;\
+    }\
+    if (hasKey) {\
         theValue = PyNamemapper_valueForName(nameSpace, nameChunks, numChunks, executeCallables);\
         if (namespace_decref) {\
             Py_DECREF(nameSpace);\
-- 
2.43.0


From 7cecc9510e0153843fdada36e2231f8fc3ff397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 09/97] fix: prioritizeSearchListOverSelf accepts a searchList
 given as a tuple

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e7d06a4..5b6b13f 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1571,7 +1571,7 @@ class Template(Servlet):
             if searchList is not None:
                 if isinstance(compilerSettings, dict) and \
                         compilerSettings.get('prioritizeSearchListOverSelf'):
-                    self._CHEETAH__searchList = searchList + \
+                    self._CHEETAH__searchList = list(searchList) + \
                         self._CHEETAH__searchList
                 else:
                     self._CHEETAH__searchList.extend(list(searchList))
-- 
2.43.0


From 921eaf39996aed74811dbec17270487d842d8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 10/97] fix: a single object is accepted as the searchList
 again

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 5b6b13f..6072dfd 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1299,7 +1299,7 @@ class Template(Servlet):
         ##################################################
         # Setup instance state attributes used during the life of template
         # post-compile
-        if searchList:
+        if isinstance(searchList, (list, tuple)):
             for namespace in searchList:
                 if isinstance(namespace, dict):
                     intersection = self.Reserved_SearchList \
-- 
2.43.0


From 545de2b175443d747e490e83d04114222998d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:33 +0000
Subject: [PATCH 11/97] fix: c'' strings may be empty or contain escapes that
 are not valid in upper case

---
 Cheetah/Parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 329447c..15519e2 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1278,12 +1278,11 @@ class _LowLevelParser(SourceReader):
         At the moment only Cheetah's c'$placeholder strings' are transformed.
         """
         if token == 'c' and not self.atEnd() and self.peek() in '\'"':
-            nextToken = self.getPyToken()
-            token = nextToken.upper()
+            token = self.getPyToken()
             theStr = eval(token)
             endPos = self.pos()
             if not theStr:
-                return
+                return token
 
             if token.startswith(single3) or token.startswith(double3):
                 startPosIdx = 3
-- 
2.43.0


From d999ec5cf622fcff77e887cffa04216393d15bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:05 +0000
Subject: [PATCH 12/97] fix: a conditional expression in brackets may be used
 inside #if ... then ... else

---
 Cheetah/Parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 15519e2..25750a2 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2732,10 +2732,15 @@ class _HighLevelParser(_LowLevelParser):
             trueExpr = []
             falseExpr = []
             currentExpr = conditionExpr
+            depth = 0  # an 'else' inside brackets belongs to Python
             for part in expressionParts:
-                if part.strip() == 'then':
+                if part in ('(', '[', '{'):
+                    depth += 1
+                elif part in (')', ']', '}'):
+                    depth -= 1
+                if part.strip() == 'then' and not depth:
                     currentExpr = trueExpr
-                elif part.strip() == 'else':
+                elif part.strip() == 'else' and not depth:
                     currentExpr = falseExpr
                 else:
                     currentExpr.append(part)
-- 
2.43.0


From 278b6f9f3577b47c0f6af1b88a401a49a24e4788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:58 +0000
Subject: [PATCH 13/97] fix: an opening brace after a subscript is text, not
 part of the placeholder

---
 Cheetah/Parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 25750a2..5faceaa 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1181,7 +1181,9 @@ class _LowLevelParser(SourceReader):
                     break
 
             c = self.peek()
-            if c in "{([":
+            if c == '{' and enclosed and exprBits and not enclosures:
+                break  # $x[0]{ ...: no subscript or call continues with it
+            elif c in "{([":
                 exprBits.append(c)
                 enclosures.append((c, self.pos()))
                 self.advance()
-- 
2.43.0


From 61732143c135d1b3280a6e10da09606e3e189b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 14/97] fix: #filter None is in force in the methods called
 from its block too

---
 Cheetah/Compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 61c7468..5e99cdb 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1029,7 +1029,9 @@ class MethodCompiler(GenUtils):
                 + theFilter.strip() + '(self).filter')
         else:
             if theFilter.lower() == 'none':
-                self.addChunk('_filter = self._CHEETAH__initialFilter')
+                self.addChunk(
+                    '_filter = self._CHEETAH__currentFilter = '
+                    'self._CHEETAH__initialFilter')
             else:
                 # is string representing the name of a builtin filter
                 self.addChunk('filterName = ' + repr(theFilter))
-- 
2.43.0


From 21525f46d975594f175674d8bf6cf3211b5ae39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 15/97] fix: #filter, #call, #capture and #cache regions are
 closed when an exception, #break, #continue or #return leaves them

---
 Cheetah/Compiler.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 5e99cdb..7b7d024 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -757,6 +757,20 @@ class MethodCompiler(GenUtils):
         if autoIndent:
             self.indent()
 
+    def startProtectedRegion(self):
+        """Whatever leaves the region (an exception, #break, #return ...)
+        the code after closeProtectedRegion() is executed.
+        """
+        self.addChunk('try:')
+        self.indent()
+        self.addChunk('pass')
+
+    def closeProtectedRegion(self):
+        self.commitStrConst()
+        self.dedent()
+        self.addChunk('finally:')
+        self.indent()
+
     def nextCacheID(self):
         return ('_' + str(random.randrange(100, 999))
                 + str(random.randrange(10000, 99999)))
@@ -839,11 +853,14 @@ class MethodCompiler(GenUtils):
             self.addChunk(("_cacheItem_%(ID)s.setExpiryTime(currentTime() +"
                           % locals())
                           + str(interval) + ")")
+        self.startProtectedRegion()
 
     def endCacheRegion(self):
         ID = self._cacheRegionsStack.pop()
+        self.closeProtectedRegion()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
+        self.dedent()
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
@@ -882,6 +899,7 @@ class MethodCompiler(GenUtils):
                       % locals())
         self.addChunk('write = _callCollector%(ID)s.response().write'
                       % locals())
+        self.startProtectedRegion()
 
     def setCallArg(self, argName, lineCol):
         ID, callDetails = self._callRegionsStack[-1]
@@ -912,12 +930,14 @@ class MethodCompiler(GenUtils):
             callDetails.functionName, callDetails.args, callDetails.lineCol)
 
         def reset(ID=ID):
+            self.closeProtectedRegion()
             self.addChunk('trans = _orig_trans%(ID)s' % locals())
             self.addChunk('write = trans.response().write')
             self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s '
                           % locals())
             self.addChunk('del _wasBuffering%(ID)s' % locals())
             self.addChunk('del _orig_trans%(ID)s' % locals())
+            self.dedent()
 
         if not callDetails.usesKeywordArgs:
             reset()
@@ -969,14 +989,17 @@ class MethodCompiler(GenUtils):
             'trans = _captureCollector%(ID)s = DummyTransaction()' % locals())
         self.addChunk(
             'write = _captureCollector%(ID)s.response().write' % locals())
+        self.startProtectedRegion()
 
     def endCaptureRegion(self):
         ID, captureDetails = self._captureRegionsStack.pop()
         assignTo, lineCol = (captureDetails.assignTo, captureDetails.lineCol)
+        self.closeProtectedRegion()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
         self.addChunk(
             'self._CHEETAH__isBuffering = _wasBuffering%(ID)s ' % locals())
+        self.dedent()
         self.addChunk(
             '%(assignTo)s = _captureCollector%(ID)s.response().getvalue()'
             % locals())
@@ -1050,14 +1073,17 @@ class MethodCompiler(GenUtils):
                     + 'getattr(self._CHEETAH__filtersLib, filterName)'
                     + '(self).filter')
                 self.dedent()
+        self.startProtectedRegion()
 
     def closeFilterBlock(self):
         ID, filterDetails = self._filterRegionsStack.pop()
         # self.addChunk('_filter = self._CHEETAH__initialFilter')
         # self.addChunk('_filter = _orig_filter%(ID)s'%locals())
+        self.closeProtectedRegion()
         self.addChunk(
             '_filter = self._CHEETAH__currentFilter = _orig_filter%(ID)s'
             % locals())
+        self.dedent()
 
 
 class AutoMethodCompiler(MethodCompiler):
-- 
2.43.0


From e0eeda5bf74cb248923e4ee537dc2c43d9723930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:24 +0000
Subject: [PATCH 16/97] fix: #stop inside a #call, #capture or #cache region
 returns the text before it

---
 Cheetah/Compiler.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 7b7d024..b36b198 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -352,6 +352,7 @@ class MethodCompiler(GenUtils):
         self._callRegionsStack = []
         self._captureRegionsStack = []
         self._filterRegionsStack = []
+        self._bufferedRegionsStack = []  # cache, call and capture regions
 
         self._isErrorCatcherOn = False
 
@@ -787,6 +788,7 @@ class MethodCompiler(GenUtils):
             ID = customID
         varyBy = cacheInfo.get('varyBy', repr(ID))
         self._cacheRegionsStack.append(ID)  # attrib of current methodCompiler
+        self._bufferedRegionsStack.append((ID, True))
 
         # @@TR: add this to a special class var as well
         self.addChunk('')
@@ -857,6 +859,7 @@ class MethodCompiler(GenUtils):
 
     def endCacheRegion(self):
         ID = self._cacheRegionsStack.pop()
+        self._bufferedRegionsStack.pop()
         self.closeProtectedRegion()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
@@ -887,6 +890,7 @@ class MethodCompiler(GenUtils):
         callDetails.usesKeywordArgs = False
         # attrib of current methodCompiler
         self._callRegionsStack.append((ID, callDetails))
+        self._bufferedRegionsStack.append((ID, False))
 
         self.addChunk('## START %(regionTitle)s REGION: ' % locals() + ID
                       + ' of ' + functionName
@@ -965,6 +969,7 @@ class MethodCompiler(GenUtils):
                       + ' at line %s, col %s' % lineCol + ' in the source.')
         self.addChunk('')
         self._callRegionsStack.pop()  # attrib of current methodCompiler
+        self._bufferedRegionsStack.pop()
 
     def nextCaptureRegionID(self):
         return self.nextCacheID()
@@ -979,6 +984,7 @@ class MethodCompiler(GenUtils):
 
         # attrib of current methodCompiler
         self._captureRegionsStack.append((ID, captureDetails))
+        self._bufferedRegionsStack.append((ID, False))
         self.addChunk('## START CAPTURE REGION: ' + ID + ' ' + assignTo
                       + ' at line %s, col %s' % lineCol + ' in the source.')
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
@@ -993,6 +999,7 @@ class MethodCompiler(GenUtils):
 
     def endCaptureRegion(self):
         ID, captureDetails = self._captureRegionsStack.pop()
+        self._bufferedRegionsStack.pop()
         assignTo, lineCol = (captureDetails.assignTo, captureDetails.lineCol)
         self.closeProtectedRegion()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
@@ -1207,6 +1214,13 @@ class AutoMethodCompiler(MethodCompiler):
         self.addChunk('')
 
     def addStop(self, expr=None):
+        # leave the regions that are open: the text so far is what the method
+        # has written before them, and in a cache region also the region's
+        for ID, isOutput in reversed(self._bufferedRegionsStack):
+            if isOutput:
+                self.addChunk('_orig_trans%(ID)s.response().write('
+                              'trans.response().getvalue())' % locals())
+            self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk(
             'return _dummyTrans and trans.response().getvalue() or ""')
 
-- 
2.43.0


From 0ed5584ff3d17366a107cfe725bb0cc540f36808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:02 +0000
Subject: [PATCH 17/97] fix: the indentation of an #arg line is not part of the
 argument before it

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 5faceaa..9e0131b 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2608,12 +2608,12 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
-        self._compiler.setCallArg(argName, lineCol)
         if self.peek() == ':':
             self.getc()
         else:
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLinePos)
+        self._compiler.setCallArg(argName, lineCol)
 
     def eatFilter(self):
         isLineClearToStartToken = self.isLineClearToStartToken()
-- 
2.43.0


From 505a36ea84a584b381caa5a4455fddcc934a1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 18/97] fix: the text of a #cache region that is left early is
 not lost

---
 Cheetah/Compiler.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index b36b198..eced40b 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -863,12 +863,12 @@ class MethodCompiler(GenUtils):
         self.closeProtectedRegion()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
-        self.dedent()
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
-        self.addChunk('_cacheItem_%(ID)s.setData(_cacheData)' % locals())
         self.addWriteChunk('_cacheData')
+        self.dedent()
+        self.addChunk('_cacheItem_%(ID)s.setData(_cacheData)' % locals())
         self.addChunk('del _cacheData')
         self.addChunk('del _cacheCollector_%(ID)s' % locals())
         self.addChunk('del _orig_trans%(ID)s' % locals())
@@ -1214,15 +1214,18 @@ class AutoMethodCompiler(MethodCompiler):
         self.addChunk('')
 
     def addStop(self, expr=None):
-        # leave the regions that are open: the text so far is what the method
-        # has written before them, and in a cache region also the region's
-        for ID, isOutput in reversed(self._bufferedRegionsStack):
-            if isOutput:
-                self.addChunk('_orig_trans%(ID)s.response().write('
-                              'trans.response().getvalue())' % locals())
-            self.addChunk('trans = _orig_trans%(ID)s' % locals())
-        self.addChunk(
-            'return _dummyTrans and trans.response().getvalue() or ""')
+        # the text so far is what the method has written before the regions
+        # that are open, and in a cache region also the text of the region
+        transNames = []
+        for ID, isOutput in self._bufferedRegionsStack:
+            transNames.append('_orig_trans%(ID)s' % locals())
+            if not isOutput:
+                break
+        else:
+            transNames.append('trans')
+        self.addChunk('return _dummyTrans and ' + ' + '.join(
+            [name + '.response().getvalue()' for name in transNames])
+            + ' or ""')
 
     def addMethArg(self, name, defVal=None):
         self._argStringList.append((name, defVal))
-- 
2.43.0


From 403f618ed4428378679d8f0fc55b4140e985efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 19/97] fix: MemoryCacheStore.replace() replaces existing
 values only; an expired value is absent for add() and delete() too

---
 Cheetah/CacheStore.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 00b77ec..1f88bce 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -43,29 +43,37 @@ class MemoryCacheStore(AbstractCacheStore):
     def __init__(self):
         self._data = {}
 
+    def _has(self, key):
+        if key not in self._data:
+            return False
+        exptime = self._data[key][1]
+        if exptime and time.time() > exptime:
+            del self._data[key]
+            return False
+        return True
+
     def set(self, key, val, time=0):
         self._data[key] = (val, time)
 
     def add(self, key, val, time=0):
-        if key in self._data:
+        if self._has(key):
             raise Error('a value for key %r is already in the cache' % key)
         self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
-        if key in self._data:
-            raise Error('a value for key %r is already in the cache' % key)
+        if not self._has(key):
+            raise Error('there is no value for key %r in the cache' % key)
         self._data[key] = (val, time)
 
     def delete(self, key):
+        if not self._has(key):
+            raise KeyError(key)
         del self._data[key]
 
     def get(self, key):
-        (val, exptime) = self._data[key]
-        if exptime and time.time() > exptime:
-            del self._data[key]
+        if not self._has(key):
             raise KeyError(key)
-        else:
-            return val
+        return self._data[key][0]
 
     def clear(self):
         self._data.clear()
-- 
2.43.0


From c5ec2b93e6429bb1b497ed8026f713599f84435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 20/97] fix: MemcachedCacheStore.add() and replace() do not
 fail with AttributeError after storing the value

---
 Cheetah/CacheStore.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 1f88bce..87fef57 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -95,13 +95,11 @@ class MemcachedCacheStore(AbstractCacheStore):
         res = self._client.add(key, val, time)
         if not res:
             raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
         res = self._client.replace(key, val, time)
         if not res:
-            raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
+            raise Error('there is no value for key %r in the cache' % key)
 
     def delete(self, key):
         res = self._client.delete(key, time=0)
-- 
2.43.0


From 07481401ed2dd6a57a0d10295143495a865ca79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 21/97] fix: varyBy values and item ids of a cache region may
 contain non-ASCII characters

---
 Cheetah/CacheRegion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 153aec9..84f33d0 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -129,7 +129,7 @@ class CacheRegion(object):
 
             Returns a `CacheItem` instance.
         """
-        cacheItemID = md5(str(cacheItemID).encode('ascii')).hexdigest()
+        cacheItemID = md5(str(cacheItemID).encode('utf-8')).hexdigest()
 
         if cacheItemID not in self._cacheItems:
             cacheItem = self._cacheItemClass(
-- 
2.43.0


From e1f0a6a2d82b5a7211bc72f23e487fddacd98f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 22/97] fix: refreshCache() of an item that has no stored text
 does not fail with KeyError

---
 Cheetah/CacheRegion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 84f33d0..969ab97 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -68,7 +68,10 @@ class CacheItem(object):
         return self.getData() or ""
 
     def clear(self):
-        self._cacheStore.delete(self._cacheItemID)
+        try:
+            self._cacheStore.delete(self._cacheItemID)
+        except KeyError:  # nothing stored (yet), expired or cleared before
+            pass
         self._refreshTime = None
 
 
-- 
2.43.0


From 11b86937eddc6b9e9b32cc8b5dd8022cbe559690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:59 +0000
Subject: [PATCH 23/97] fix: the id= of a #cache region need not be a valid
 Python name

---
 Cheetah/Compiler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index eced40b..d03bab8 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -783,23 +783,23 @@ class MethodCompiler(GenUtils):
         ID = self.nextCacheID()
         interval = cacheInfo.get('interval', None)
         test = cacheInfo.get('test', None)
-        customID = cacheInfo.get('id', None)
-        if customID:
-            ID = customID
-        varyBy = cacheInfo.get('varyBy', repr(ID))
+        # the ID is part of variable names, the id= argument need not be
+        # a valid name
+        regionID = cacheInfo.get('id', None) or ID
+        varyBy = cacheInfo.get('varyBy', repr(regionID))
         self._cacheRegionsStack.append(ID)  # attrib of current methodCompiler
         self._bufferedRegionsStack.append((ID, True))
 
         # @@TR: add this to a special class var as well
         self.addChunk('')
 
-        self.addChunk('## START CACHE REGION: ID=' + ID
+        self.addChunk('## START CACHE REGION: ID=' + regionID
                       + '. line %s, col %s' % lineCol + ' in the source.')
 
         self.addChunk('_RECACHE_%(ID)s = False' % locals())
         self.addChunk('_cacheRegion_%(ID)s = self.getCacheRegion(regionID='
                       % locals()
-                      + repr(ID)
+                      + repr(regionID)
                       + ', cacheInfo=%r' % cacheInfo
                       + ')')
         self.addChunk('if _cacheRegion_%(ID)s.isNew():' % locals())
-- 
2.43.0


From 38f9550509708d3ff61453f20b367e501d1b93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:40 +0000
Subject: [PATCH 24/97] fix: compilation cache confuses similar but different
 compile arguments

The cache key was a concatenation of hash values without separators, so that
e.g. -1 and -2, 1 and True or neighbouring names shifted by a character gave
the same key, and module globals that are not hashable raised TypeError.
---
 Cheetah/Template.py | 65 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 6072dfd..f0cdc1f 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -87,15 +87,42 @@ class PreprocessError(Error):
     pass
 
 
+class _Identity(object):
+    """Compares equal only to wrappers of the very same object."""
+    def __init__(self, value):
+        self.value = value
+
+    def __eq__(self, other):
+        return isinstance(other, _Identity) and self.value is other.value
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return id(self.value)
+
+
+def hashValue(v):
+    # Equal keys stand for interchangeable values: 1, 1.0 and True are equal
+    # but do not look the same, and mutable values are equal only temporarily.
+    if isinstance(v, (string_type, bytes, int, float, NoneType)):
+        return (type(v), repr(v))
+    elif isinstance(v, types.MethodType):
+        return v
+    return _Identity(v)
+
+
 def hashList(v_list):
     hashedList = []
     for v in v_list:
         if isinstance(v, dict):
             v = hashDict(v)
-        elif isinstance(v, list):
+        elif isinstance(v, (list, tuple)):
             v = hashList(v)
+        else:
+            v = hashValue(v)
         hashedList.append(v)
-    return hash(tuple(hashedList))
+    return (type(v_list), tuple(hashedList))
 
 
 def hashDict(d):
@@ -104,10 +131,12 @@ def hashDict(d):
     for k, v in items:
         if isinstance(v, dict):
             v = hashDict(v)
-        elif isinstance(v, list):
+        elif isinstance(v, (list, tuple)):
             v = hashList(v)
+        else:
+            v = hashValue(v)
         hashedList.append((k, v))
-    return hash(tuple(hashedList))
+    return (type(d), tuple(hashedList))
 
 
 ###############################################################################
@@ -733,11 +762,12 @@ class Template(Servlet):
 
             moduleGlobalsHash = None
             if moduleGlobals:
-                moduleGlobalsHash = hashDict(moduleGlobals)
+                moduleGlobalsHash = frozenset(
+                    [(k, hashValue(v)) for k, v in moduleGlobals.items()])
 
             fileHash = None
             if file:
-                fileHash = str(hash(file))
+                fileHash = str(hash(os.path.abspath(file)))
                 if globals()['__checkFileMtime']:
                     fileHash += str(os.path.getmtime(file))
 
@@ -747,18 +777,17 @@ class Template(Servlet):
                 # compiled module on disk and thereby reduce the startup time
                 # for applications that use a lot of dynamically compiled
                 # templates.
-                cacheHash = ''.join([str(v) for v in
-                                     [hash(source),
-                                      fileHash,
-                                      className,
-                                      moduleName,
-                                      mainMethodName,
-                                      hash(compilerClass),
-                                      hash(baseclass),
-                                      compilerSettingsHash,
-                                      moduleGlobalsHash,
-                                      hash(cacheDirForModuleFiles),
-                                      ]])
+                cacheHash = tuple([hash(source),
+                                   fileHash,
+                                   className,
+                                   moduleName,
+                                   mainMethodName,
+                                   hash(compilerClass),
+                                   hash(baseclass),
+                                   compilerSettingsHash,
+                                   moduleGlobalsHash,
+                                   hash(cacheDirForModuleFiles),
+                                   ])
             except Exception:
                 # @@TR: should add some logging to this
                 pass
-- 
2.43.0


From 4e89b422de1b3def5a6dbe625c45cb622f389892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:13 +0000
Subject: [PATCH 25/97] fix: module code from the compilation cache ignores its
 encoding and #! line

---
 Cheetah/Template.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index f0cdc1f..c2b6332 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -787,6 +787,7 @@ class Template(Servlet):
                                    compilerSettingsHash,
                                    moduleGlobalsHash,
                                    hash(cacheDirForModuleFiles),
+                                   commandlineopts and commandlineopts.shbang,
                                    ])
             except Exception:
                 # @@TR: should add some logging to this
@@ -796,6 +797,7 @@ class Template(Servlet):
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
             cacheItem = klass._CHEETAH_compileCache[cacheHash]
             generatedModuleCode = cacheItem.code
+            outputEncoding = cacheItem.encoding
         else:
             compiler = compilerClass(source, file,
                                      moduleName=moduleName,
@@ -881,6 +883,7 @@ class Template(Servlet):
                 cacheItem = CompileCacheItem()
                 cacheItem.cacheTime = cacheItem.lastCheckoutTime = time.time()
                 cacheItem.code = generatedModuleCode
+                cacheItem.encoding = outputEncoding
                 cacheItem.klass = templateClass
                 templateClass._CHEETAH_isInCompilationCache = True
                 klass._CHEETAH_compileCache[cacheHash] = cacheItem
-- 
2.43.0


From 87c2245226a068064ec3493a3dedc79e2cd68bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:16 +0000
Subject: [PATCH 26/97] fix: #include mixes up raw and parsed includes and
 misses changed files

---
 Cheetah/Template.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index c2b6332..6f65105 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1697,7 +1697,12 @@ class Template(Servlet):
                               includeFrom='file', raw=False):
         """Called at runtime to handle #include directives.
         """
-        _includeID = srcArg
+        _includeID = (srcArg, includeFrom, raw)
+        if includeFrom == 'file' and isinstance(srcArg, string_type):
+            path = self.serverSidePath(srcArg)
+            # include changed files anew
+            _includeID += (path, os.path.exists(path)
+                           and os.path.getmtime(path))
         if _includeID not in self._CHEETAH__cheetahIncludes:
             if not raw:
                 if includeFrom == 'file':
-- 
2.43.0


From 6ac71f7a35c08a42536c94d289698e48a9e51372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:37 +0000
Subject: [PATCH 27/97] fix: line numbers and source lines of ParseError
 disagree about what a line is

---
 Cheetah/SourceReader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Cheetah/SourceReader.py b/Cheetah/SourceReader.py
index 92b0be3..dddab26 100644
--- a/Cheetah/SourceReader.py
+++ b/Cheetah/SourceReader.py
@@ -61,16 +61,18 @@ class SourceReader(object):
 
     def splitlines(self):
         if not hasattr(self, '_srcLines'):
-            self._srcLines = self._src.splitlines()
+            self._srcLines = [self._src[BOL:EOL] for BOL, EOL
+                              in zip(self._BOLs, self._EOLs)]
         return self._srcLines
 
     def lineNum(self, pos=None):
         if pos is None:
             pos = self._pos
 
-        for i in range(len(self._BOLs)):
-            if pos >= self._BOLs[i] and pos <= self._EOLs[i]:
+        for i in range(len(self._BOLs) - 1, 0, -1):
+            if pos >= self._BOLs[i]:
                 return i
+        return 0
 
     def getRowCol(self, pos=None):
         if pos is None:
-- 
2.43.0


From 17677c00f0d445a495cd97015408898a4bec4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:03 +0000
Subject: [PATCH 28/97] fix: malformed templates are reported as ParseError
 instead of internal errors

---
 Cheetah/Compiler.py     | 17 +++++++++----
 Cheetah/Parser.py       | 53 +++++++++++++++++++++++++++++++++++++----
 Cheetah/SourceReader.py |  2 +-
 3 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index d03bab8..b49d442 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -21,6 +21,7 @@ import codecs
 
 from .Version import Version, VersionTuple
 from .SettingsManager import SettingsManager
+from .SourceReader import SourceReader
 from .Utils.Indenter import indentize  # an undocumented preprocessor
 from . import NameMapper
 from .Parser import Parser, ParseError, specialVarRE, \
@@ -694,12 +695,16 @@ class MethodCompiler(GenUtils):
         self.addReIndentingDirective(expr, dedent=dedent, lineCol=lineCol)
 
     def addReturn(self, expr):
-        assert not self._isGenerator
+        if self._isGenerator:
+            raise ParseError(self._moduleCompiler._parser,
+                             'A method cannot have both #yield and #return')
         self.addChunk(expr)
         self._hasReturnStatement = True
 
     def addYield(self, expr):
-        assert not self._hasReturnStatement
+        if self._hasReturnStatement:
+            raise ParseError(self._moduleCompiler._parser,
+                             'A method cannot have both #yield and #return')
         self._isGenerator = True
         if expr.replace('yield', '').strip():
             self.addChunk(expr)
@@ -1486,7 +1491,7 @@ class ClassCompiler(GenUtils):
         # inside the expression
         if attribExpr.find('VFN(') != -1 or attribExpr.find('VFFSL(') != -1:
             raise ParseError(
-                self,
+                self._moduleCompiler._parser,
                 'Invalid #attr directive. It should only contain '
                 + 'simple Python literals.')
         # now add the attribute
@@ -1738,7 +1743,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
             if unicodeMatch:
                 if encodingMatch:
                     raise ParseError(
-                        self, "#encoding and #unicode are mutually exclusive! "
+                        SourceReader(source, filename=self._filePath),
+                        "#encoding and #unicode are mutually exclusive! "
                         "Use one or the other.")
                 source = unicodeDirectiveRE.sub('', source)
                 if isinstance(source, bytes):
@@ -2035,7 +2041,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
         importVarNames = impStatement[
             impStatement.find('import') + len('import'):].split(',')
         # handle aliases
-        importVarNames = [var.split()[-1] for var in importVarNames]
+        importVarNames = [var.split()[-1] for var in importVarNames
+                          if var.strip()]
         importVarNames = [var for var in importVarNames if not var == '*']
         # used by #extend for auto-imports
         self.addImportedVarNames(importVarNames, raw_statement=impStatement)
diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 9e0131b..fe07c86 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -567,6 +567,18 @@ class _LowLevelParser(SourceReader):
         token = self.setting('directiveStartToken')
         return theString.replace('\\' + token, token)
 
+    def peek(self, offset=0):
+        try:
+            return SourceReader.peek(self, offset)
+        except IndexError:
+            raise ParseError(self, msg='Unexpected end of the template')
+
+    def getc(self):
+        try:
+            return SourceReader.getc(self)
+        except IndexError:
+            raise ParseError(self, msg='Unexpected end of the template')
+
     def isLineClearToStartToken(self, pos=None):
         return self.isLineClearToPos(pos)
 
@@ -905,8 +917,10 @@ class _LowLevelParser(SourceReader):
 
     def getCheetahVarBody(self, plain=False):
         # @@TR: this should be in the compiler
-        return self._compiler.genCheetahVar(self.getCheetahVarNameChunks(),
-                                            plain=plain)
+        nameChunks = self.getCheetahVarNameChunks()
+        if not nameChunks:
+            raise ParseError(self, msg='Expected a name')
+        return self._compiler.genCheetahVar(nameChunks, plain=plain)
 
     def getCheetahVarNameChunks(self):
 
@@ -1100,6 +1114,8 @@ class _LowLevelParser(SourceReader):
                     argList.add_default(c)
                 self.advance()
             elif c == '=':
+                if len(argList.arguments) <= argList.count:
+                    raise ParseError(self, msg='Expected an argument name')
                 onDefVal = True
                 self.advance()
             elif c == ",":
@@ -1547,6 +1563,7 @@ class _HighLevelParser(_LowLevelParser):
             origBP = self.breakPoint()
             self.setBreakPoint(breakPoint)
             assertEmptyStack = False
+            origOpenDirectives = self._openDirectivesStack[:]
 
         while not self.atEnd():
             if self.matchCommentStartToken():
@@ -1568,6 +1585,10 @@ class _HighLevelParser(_LowLevelParser):
         if assertEmptyStack:
             self.assertEmptyOpenDirectivesStack()
         if breakPoint:
+            if self._openDirectivesStack != origOpenDirectives:
+                raise ParseError(
+                    self, msg="The directives in a single-line #directive: "
+                    "must be closed on the same line")
             self.setBreakPoint(origBP)
 
     # non-directive eat methods
@@ -1659,10 +1680,15 @@ class _HighLevelParser(_LowLevelParser):
                 if self.matchPSPEndToken():
                     break
             self.advance()
+        if self.atEnd():
+            self.setPos(startPos)
+            raise ParseError(
+                self, msg="EOF was reached before a matching '%s'" % endToken)
         pspString = self.readTo(self.pos(), start=startPos).strip()
         pspString = self._applyExpressionFilters(pspString, 'psp',
                                                  startPos=startPos)
-        self._compiler.addPSP(pspString)
+        if pspString:
+            self._compiler.addPSP(pspString)
         self.getPSPEndToken()
 
     # generic directive eat methods
@@ -1758,6 +1784,8 @@ class _HighLevelParser(_LowLevelParser):
                         self.getWhiteSpace()
                         finalPos = self.pos()
                         break
+                    finalPos = endRawPos = self.pos()
+                    continue
             self.advance()
             finalPos = endRawPos = self.pos()
 
@@ -1790,6 +1818,9 @@ class _HighLevelParser(_LowLevelParser):
             expr = self.getExpression(useNameMapper=False).strip()
         else:
             expr = self.getExpression().strip()
+        if not expr:
+            raise ParseError(self, msg='#%s needs an expression'
+                             % directiveName)
         directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
@@ -2378,7 +2409,9 @@ class _HighLevelParser(_LowLevelParser):
         else:
             argsList = []
 
-        assert macroName not in self._directiveNamesAndParsers
+        if macroName in self._directiveNamesAndParsers:
+            raise ParseError(self, msg="There is already a #%s directive"
+                             % macroName)
         argsList.insert(0, ('src', None))
         argsList.append(('parser', 'None'))
         argsList.append(('macros', 'None'))
@@ -2539,7 +2572,15 @@ class _HighLevelParser(_LowLevelParser):
                                                startPos=startPos)
 
         def startCache():
-            cacheInfo = self._compiler.genCacheInfoFromArgList(argList)
+            for argName, value in argList:
+                if not value:
+                    raise ParseError(
+                        self, msg="The #cache argument '%s' needs a value"
+                        % argName)
+            try:
+                cacheInfo = self._compiler.genCacheInfoFromArgList(argList)
+            except ValueError:
+                raise ParseError(self, msg='Invalid #cache timer')
             self._compiler.startCacheRegion(cacheInfo, lineCol)
 
         if self.matchColonForSingleLineShortFormDirective():
@@ -2613,6 +2654,8 @@ class _HighLevelParser(_LowLevelParser):
         else:
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLinePos)
+        if not self._compiler._callRegionsStack:
+            raise ParseError(self, msg='#arg found outside of #call')
         self._compiler.setCallArg(argName, lineCol)
 
     def eatFilter(self):
diff --git a/Cheetah/SourceReader.py b/Cheetah/SourceReader.py
index dddab26..5b18b38 100644
--- a/Cheetah/SourceReader.py
+++ b/Cheetah/SourceReader.py
@@ -234,7 +234,7 @@ class SourceReader(object):
             pos = self.pos()
         self.checkPos(pos)
         src = self.src()
-        BOL = self.findBOL()
+        BOL = self.findBOL(pos)
         return BOL == pos or src[BOL:pos].isspace()
 
     def matches(self, strOrRE):
-- 
2.43.0


From c02d4331edd10349009f5712789b4f14680e9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:15 +0000
Subject: [PATCH 29/97] fix: an empty value in compiler settings raises
 IndexError; #raw in a single-line directive reads past its line

---
 Cheetah/Parser.py          | 2 +-
 Cheetah/SettingsManager.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index fe07c86..8c032ff 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1794,7 +1794,7 @@ class _HighLevelParser(_LowLevelParser):
 
         endOfFirstLinePos = self.findEOL()
 
-        if self.matchDirectiveEndToken():
+        if (not self.atEnd()) and self.matchDirectiveEndToken():
             self.getDirectiveEndToken()
         elif isLineClearToStartToken and (not self.atEnd()) \
                 and self.peek() in '\r\n':
diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 91b6002..767ddb6 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -49,7 +49,7 @@ def stringIsNumber(S):
 
     S = S.strip()
 
-    if S[0] in '-+' and len(S) > 1:
+    if S[:1] in ('-', '+') and len(S) > 1:
         S = S[1:].strip()
 
     match = complexNumberRE.match(S)
-- 
2.43.0


From f447cf2e94788950740d5b46b321a6df64196916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:34 +0000
Subject: [PATCH 30/97] fix: an unexpected #end is reported on its own line,
 not on the next one

---
 Cheetah/Parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 8c032ff..c325b71 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1881,11 +1881,12 @@ class _HighLevelParser(_LowLevelParser):
         if not directiveName:
             raise ParseError(self, msg='Invalid end directive')
 
+        if directiveName in self._closeableDirectives:
+            self.popFromOpenDirectivesStack(directiveName)
+
         endOfFirstLinePos = self.findEOL()
         self.getExpression()  # eat in any extra comment-like crap
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
-        if directiveName in self._closeableDirectives:
-            self.popFromOpenDirectivesStack(directiveName)
 
         # subclasses can override the default behaviours here
         # by providing an end-directive handler
-- 
2.43.0


From c144a45e14ae5f8939a88ebae0440ffa35f463e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:13 +0000
Subject: [PATCH 31/97] fix: an unclosed argument list of #def is rejected
 where it starts

---
 Cheetah/Parser.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index c325b71..ed2e6ee 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1084,7 +1084,9 @@ class _LowLevelParser(SourceReader):
 
         This method understands *arg, and **kw.
         """
+        openPos = None
         if self.peek() == '(':
+            openPos = self.pos()
             self.advance()
         else:
             exitPos = self.findEOL()  # it's a directive so break at the EOL
@@ -1097,6 +1099,8 @@ class _LowLevelParser(SourceReader):
 
         while True:
             if self.atEnd():
+                if openPos is not None:
+                    self.setPos(openPos)
                 raise ParseError(
                     self, msg="EOF was reached before a matching ')'"
                     + " was found for the '('")
@@ -1151,6 +1155,10 @@ class _LowLevelParser(SourceReader):
             else:
                 raise ParseError(self)
 
+        if openPos is not None and self.peek() != ')':
+            self.setPos(openPos)
+            raise ParseError(self, msg="No matching ')' was found for the '('")
+
         # @@TR: see comment above
         self.setSetting('useNameMapper', useNameMapper_orig)
         return argList.merge()
@@ -2572,16 +2580,17 @@ class _HighLevelParser(_LowLevelParser):
         argList = self._applyExpressionFilters(argList, 'cache',
                                                startPos=startPos)
 
+        for argName, value in argList:
+            if not value:
+                raise ParseError(
+                    self, msg="The #cache argument '%s' needs a value"
+                    % argName)
+        try:
+            cacheInfo = self._compiler.genCacheInfoFromArgList(argList)
+        except ValueError:
+            raise ParseError(self, msg='Invalid #cache timer')
+
         def startCache():
-            for argName, value in argList:
-                if not value:
-                    raise ParseError(
-                        self, msg="The #cache argument '%s' needs a value"
-                        % argName)
-            try:
-                cacheInfo = self._compiler.genCacheInfoFromArgList(argList)
-            except ValueError:
-                raise ParseError(self, msg='Invalid #cache timer')
             self._compiler.startCacheRegion(cacheInfo, lineCol)
 
         if self.matchColonForSingleLineShortFormDirective():
@@ -2648,6 +2657,8 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self.getIdentifier()
         self.getWhiteSpace()
+        if not self._compiler._callRegionsStack:
+            raise ParseError(self, msg='#arg found outside of #call')
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
         if self.peek() == ':':
@@ -2655,8 +2666,6 @@ class _HighLevelParser(_LowLevelParser):
         else:
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLinePos)
-        if not self._compiler._callRegionsStack:
-            raise ParseError(self, msg='#arg found outside of #call')
         self._compiler.setCallArg(argName, lineCol)
 
     def eatFilter(self):
-- 
2.43.0


From f46c6e7c768ea9dfe3c65eb81904817bfd1755bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:44 +0000
Subject: [PATCH 32/97] fix: strings and tokens that run past a line end are
 reported as ParseError

---
 Cheetah/Parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index ed2e6ee..09ac11c 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -155,6 +155,7 @@ escCharLookBehind = nongroup(r'(?<=\A)', r'(?<!\\)')
 nameCharLookAhead = r'(?=[A-Za-z_])'
 identRE = re.compile(r'[a-zA-Z_][a-zA-Z_0-9]*')
 EOLre = re.compile(r'(?:\r\n|\r|\n)')
+unescapedCRre = re.compile(r'(?<!\\)\r(?!\n)')
 
 specialVarRE = re.compile(r'([a-zA-z_]+)@')  # for matching specialVar comments
 # e.g. ##author@ Tavis Rudd
@@ -567,6 +568,12 @@ class _LowLevelParser(SourceReader):
         token = self.setting('directiveStartToken')
         return theString.replace('\\' + token, token)
 
+    def checkPos(self, pos):
+        if pos > self.breakPoint():
+            raise ParseError(self, msg='Unexpected end of the template '
+                             'or of a single-line #directive')
+        SourceReader.checkPos(self, pos)
+
     def peek(self, offset=0):
         try:
             return SourceReader.peek(self, offset)
@@ -618,6 +625,9 @@ class _LowLevelParser(SourceReader):
             raise ParseError(self)
         elif match.group() in tripleQuotedStringStarts:
             raise ParseError(self, msg='Malformed triple-quoted string')
+        elif unescapedCRre.search(match.group()) \
+                and not match.group().startswith(tripleQuotedStringStarts):
+            raise ParseError(self, msg='Malformed string')
         return self.readTo(match.end())
 
     def matchEOLSlurpToken(self):
-- 
2.43.0


From 12a3e8a5a86a6c9fd35e206067818e7f032733a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:23 +0000
Subject: [PATCH 33/97] fix: a single-line #block inside a #def fails to
 compile

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 09ac11c..3204a8c 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2230,7 +2230,8 @@ class _HighLevelParser(_LowLevelParser):
 
         self.getWhiteSpace(max=1)
         self.parse(breakPoint=endPos)
-        if directiveName == 'closure' or isNestedDef:
+        if directiveName == 'closure' or (
+                directiveName == 'def' and isNestedDef):
             # @@TR: temporary hack of useSearchList
             self.setSetting('useSearchList', useSearchList_orig)
 
-- 
2.43.0


From f3ddac32e12a585e728983acc599fb810c5d5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:48 +0000
Subject: [PATCH 34/97] fix: error catchers: code with quotes or backslashes,
 nested scopes, positions of repeated placeholders, KeyError catcher

---
 Cheetah/Compiler.py      | 17 ++++++++++-------
 Cheetah/ErrorCatchers.py |  5 ++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index b49d442..c6b1378 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -547,7 +547,8 @@ class MethodCompiler(GenUtils):
         if self.isErrorCatcherOn():
             methodName = self._classCompiler.addErrorCatcherCall(
                 expr, rawCode=rawPlaceholder, lineCol=lineCol)
-            expr = 'self.' + methodName + '(localsDict=locals())'
+            expr = ('self.' + methodName + '(localsDict=locals(), lineCol='
+                    + str(lineCol) + ')')
 
         if silentMode:
             self.addChunk('try:')
@@ -1514,8 +1515,9 @@ class ClassCompiler(GenUtils):
             % locals())
 
     def addErrorCatcherCall(self, codeChunk, rawCode='', lineCol=''):
-        if rawCode in self._placeholderToErrorCatcherMap:
-            methodName = self._placeholderToErrorCatcherMap[rawCode]
+        if (rawCode, codeChunk) in self._placeholderToErrorCatcherMap:
+            methodName = self._placeholderToErrorCatcherMap[
+                rawCode, codeChunk]
             if not self.setting('outputRowColComments'):
                 self._methodsIndex[methodName].addMethDocString(
                     'plus at line %s, col %s' % lineCol)
@@ -1523,7 +1525,7 @@ class ClassCompiler(GenUtils):
 
         self._errorCatcherCount += 1
         methodName = '__errorCatcher' + str(self._errorCatcherCount)
-        self._placeholderToErrorCatcherMap[rawCode] = methodName
+        self._placeholderToErrorCatcherMap[rawCode, codeChunk] = methodName
 
         catcherMeth = self._spawnMethodCompiler(
             methodName,
@@ -1534,11 +1536,12 @@ class ClassCompiler(GenUtils):
         )
         catcherMeth.setMethodSignature(
             'def ' + methodName
-            + '(self, localsDict={})')  # is this use of localsDict right?
+            + '(self, localsDict={}, lineCol=None)')
         catcherMeth.addChunk('try:')
         catcherMeth.indent()
         catcherMeth.addChunk(
-            "return eval('''" + codeChunk + "''', globals(), localsDict)")
+            "return eval(" + repr(codeChunk)
+            + ", dict(globals(), **localsDict), localsDict)")
         catcherMeth.dedent()
         catcherMeth.addChunk(
             'except self._CHEETAH__errorCatcher.exceptions() as e:')
@@ -1546,7 +1549,7 @@ class ClassCompiler(GenUtils):
         catcherMeth.addChunk(
             "return self._CHEETAH__errorCatcher.warn(exc_val=e, code= "
             + repr(codeChunk) + " , rawCode= "
-            + repr(rawCode) + " , lineCol=" + str(lineCol) + ")")
+            + repr(rawCode) + " , lineCol=lineCol)")
 
         catcherMeth.cleanupState()
 
diff --git a/Cheetah/ErrorCatchers.py b/Cheetah/ErrorCatchers.py
index 655cb78..a870bdf 100644
--- a/Cheetah/ErrorCatchers.py
+++ b/Cheetah/ErrorCatchers.py
@@ -29,9 +29,12 @@ class BigEcho(ErrorCatcher):
         return "="*15 + "&lt;" + rawCode + " could not be found&gt;" + "="*15  # noqa: E226,E501 missing whitespace around operator
 
 
+BuiltinKeyError = KeyError
+
+
 class KeyError(ErrorCatcher):
     def warn(self, exc_val, code, rawCode, lineCol):
-        raise KeyError(
+        raise BuiltinKeyError(
             "no '%s' in this Template Object's Search List" % rawCode)
 
 
-- 
2.43.0


From 50cf9eb5f639591972976f559e54aee91961230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:33 +0000
Subject: [PATCH 35/97] fix: settings: nested dictionaries of the caller are
 modified by later updates, a literal % in a config string is an error

---
 Cheetah/Parser.py          |  3 ++-
 Cheetah/SettingsManager.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3204a8c..0279a62 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1514,7 +1514,7 @@ class _HighLevelParser(_LowLevelParser):
         for directiveName in self.setting('closeableDirectives', []):
             self._closeableDirectives.append(directiveName)
 
-        macroDirectives = self.setting('macroDirectives', {})
+        macroDirectives = self.setting('macroDirectives', {}).copy()
         macroDirectives['i18n'] = I18n
 
         for macroName, callback in macroDirectives.items():
@@ -2473,6 +2473,7 @@ class _HighLevelParser(_LowLevelParser):
                                     'compilerSettings': self.settings(),
                                     })
 
+        compilerSettings = compilerSettings.copy()
         templateAPIClass._updateSettingsWithPreprocessTokens(
             compilerSettings, placeholderToken='@', directiveToken='%')
         macroTemplateClass = templateAPIClass.compile(
diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 767ddb6..93171da 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -1,9 +1,9 @@
 import os.path
 import copy as copyModule
 try:
-    from ConfigParser import ConfigParser
+    from ConfigParser import ConfigParser, InterpolationSyntaxError
 except ImportError:  # PY3
-    from configparser import ConfigParser
+    from configparser import ConfigParser, InterpolationSyntaxError
 import re
 from tokenize import Number
 import types
@@ -37,7 +37,7 @@ def mergeNestedDictionaries(dict1, dict2, copy=False, deepcopy=False):
     for key, val in dict2.items():
         if key in dict1 and isinstance(val, dict) \
                 and isinstance(dict1[key], dict):
-            dict1[key] = mergeNestedDictionaries(dict1[key], val)
+            dict1[key] = mergeNestedDictionaries(dict1[key], val, copy=True)
         else:
             dict1[key] = val
     return dict1
@@ -55,7 +55,8 @@ def stringIsNumber(S):
     match = complexNumberRE.match(S)
     if not match:
         match = numberRE.match(S)
-    if not match or (match.end() != len(S)):
+    if not match or (match.end() != len(S)) \
+            or S.count('(') != S.count(')'):
         return False
     else:
         return True
@@ -164,7 +165,10 @@ class _SettingsCollector(object):
             newSettings[s] = {}
             for o in p.options(s):
                 if o != '__name__':
-                    newSettings[s][o] = p.get(s, o)
+                    try:
+                        newSettings[s][o] = p.get(s, o)
+                    except InterpolationSyntaxError:  # a literal %
+                        newSettings[s][o] = p.get(s, o, raw=True)
 
         # loop through new settings -> deal with global settings, numbers,
         # booleans and None ++ also deal with 'importSettings' commands
-- 
2.43.0


From f68eee229037c0d9840aac1b110b577dcb844a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:32 +0000
Subject: [PATCH 36/97] fix: text right after a call or subscript is not part
 of the placeholder

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 0279a62..e344687 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -966,6 +966,8 @@ class _LowLevelParser(SourceReader):
             autoCall = True
             if not self.peek() in identchars + '.':
                 break
+            elif chunks and self.peek() != '.':
+                break  # text after a call or subscript
             elif self.peek() == '.':
 
                 if self.pos() + 1 < len(self) and self.peek(1) in identchars:
-- 
2.43.0


From e8a554a25016948de1f74f95f07bf023c9ac3724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:32 +0000
Subject: [PATCH 37/97] fix: disabledDirectives and enabledDirectives accept
 errorCatcher and shBang

---
 Cheetah/Parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index e344687..7c5c4be 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1567,10 +1567,13 @@ class _HighLevelParser(_LowLevelParser):
         return expr
 
     def _filterDisabledDirectives(self, directiveName):
+        directiveKey = directiveName  # e.g. errorCatcher
         directiveName = directiveName.lower()
         if (directiveName in self.setting('disabledDirectives')
+            or directiveKey in self.setting('disabledDirectives')
             or (self.setting('enabledDirectives')
-                and directiveName not in self.setting('enabledDirectives'))):
+                and directiveName not in self.setting('enabledDirectives')
+                and directiveKey not in self.setting('enabledDirectives'))):
             for callback in self.setting('disabledDirectiveHooks'):
                 callback(parser=self, directiveName=directiveName)
             raise ForbiddenDirective(
-- 
2.43.0


From 9ab93ecf2dabe58c7bc2cbb62887561f23463b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:32 +0000
Subject: [PATCH 38/97] fix: expression hooks see the arguments of #call and of
 macros and the right directive name

---
 Cheetah/Parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 7c5c4be..faeb061 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1844,7 +1844,6 @@ class _HighLevelParser(_LowLevelParser):
         if not expr:
             raise ParseError(self, msg='#%s needs an expression'
                              % directiveName)
-        directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
         if directiveName in self._closeableDirectives:
@@ -2511,8 +2510,12 @@ class _HighLevelParser(_LowLevelParser):
             args = macro.parseArgs(parser=self, startPos=startPos)
         else:
             self.getWhiteSpace()
+            argsPos = self.pos()
             args = self.getExpression(useNameMapper=False,
                                       pyTokensToBreakAt=[':']).strip()
+            if args:
+                args = self._applyExpressionFilters(args, macroName,
+                                                    startPos=argsPos)
 
         if self.matchColonForSingleLineShortFormDirective():
             isShortForm = True
@@ -2647,7 +2650,11 @@ class _HighLevelParser(_LowLevelParser):
                                      startPos=startPos)
 
         self.getWhiteSpace()
+        startPos = self.pos()
         args = self.getExpression(pyTokensToBreakAt=[':']).strip()
+        if args:
+            args = self._applyExpressionFilters(args, 'call',
+                                                startPos=startPos)
         if self.matchColonForSingleLineShortFormDirective():
             self.advance()  # skip over :
             self._compiler.startCallRegion(functionName, args, lineCol)
-- 
2.43.0


From 0cbaac514b6367e295585da13a265f190d6c6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:32 +0000
Subject: [PATCH 39/97] fix: #compiler reset reverts to the default settings

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index faeb061..895c49b 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1987,7 +1987,7 @@ class _HighLevelParser(_LowLevelParser):
             self.getExpression()  # gobble whitespace & junk
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLine)
-            self._initializeSettings()
+            self._compiler._initializeSettings()
             self.configureParser()
             return
 
-- 
2.43.0


From 50aeb2cb11fa65963141959390aaa04393fd1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:32 +0000
Subject: [PATCH 40/97] fix: EOLSlurpToken may differ from the other tokens and
 can be escaped

---
 Cheetah/Parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 895c49b..4e7a795 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -434,7 +434,8 @@ class _LowLevelParser(SourceReader):
             + self.setting('multiLineCommentStartToken')[0]
             + self.setting('cheetahVarStartToken')[0]
             + self.setting('directiveStartToken')[0]
-            + self.setting('PSPStartToken')[0])
+            + self.setting('PSPStartToken')[0]
+            + (self.setting('EOLSlurpToken') or '')[:1])
         self._nonStrConstMatchers = [
             self.matchCommentStartToken,
             self.matchMultiLineCommentStartToken,
@@ -508,7 +509,8 @@ class _LowLevelParser(SourceReader):
 
         if self.setting('EOLSlurpToken'):
             self.EOLSlurpRE = cachedRegex(
-                escapeRegexChars(self.setting('EOLSlurpToken'))
+                escCharLookBehind
+                + escapeRegexChars(self.setting('EOLSlurpToken'))
                 + r'[ \t\f]*'
                 + r'(?:' + EOL + ')'
             )
-- 
2.43.0


From ce12c434e50722e6d91ff16c40cae3e4490f1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:32 +0000
Subject: [PATCH 41/97] fix: directive end tokens of several characters before
 another directive

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4e7a795..70b31d9 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1767,7 +1767,8 @@ class _HighLevelParser(_LowLevelParser):
         foundComment = False
         if self.matchCommentStartToken():
             pos = self.pos()
-            self.advance()
+            if self.matchDirectiveEndToken():
+                self.getDirectiveEndToken()
             if not self.matchDirective():
                 self.setPos(pos)
                 foundComment = True
-- 
2.43.0


From 231a0e8ce54a8b6dea1715959a7b403ec976fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:32 +0000
Subject: [PATCH 42/97] fix: <%= %> works with useFilters off

---
 Cheetah/Compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index c6b1378..ca98a1b 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -745,7 +745,9 @@ class MethodCompiler(GenUtils):
         autoIndent = False
         if PSP[0] == '=':
             PSP = PSP[1:]
-            if PSP:
+            if PSP and not self.setting('useFilters'):
+                self.addFilteredChunk(PSP)
+            elif PSP:
                 self.addWriteChunk('_filter(' + PSP + ')')
             return
 
-- 
2.43.0


From f8bb3d03f586c532428a03cbb5ad3a44b8b267ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:32 +0000
Subject: [PATCH 43/97] fix: #compiler-settings in templates with CR line
 endings

---
 Cheetah/SettingsManager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 93171da..0d0862f 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -300,6 +300,7 @@ class SettingsManager(_SettingsCollector):
         """
 
         configStr = '[globals]\n' + configStr
+        configStr = configStr.replace('\r\n', '\n').replace('\r', '\n')
         inFile = StringIO(configStr)
         newSettings = self.readSettingsFromConfigFileObj(inFile,
                                                          convert=convert)
-- 
2.43.0


From f44df91221542a917c81f09dfec31d866d5a3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:59 +0000
Subject: [PATCH 44/97] fix: cheetah --stdout writes no backup files and
 creates no directories

---
 Cheetah/CheetahWrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 8c85a71..f7fff4d 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -633,9 +633,9 @@ be named according to the same rules as Python modules.""" % tup)
                                            compilerSettings=compilerSettings)
             output = str(tclass(searchList=self.searchList))
 
-        if bak:
+        if bak and not self.opts.stdout:
             shutil.copyfile(dst, bak)
-        if dstDir and not os.path.exists(dstDir):
+        if dstDir and not os.path.exists(dstDir) and not self.opts.stdout:
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-- 
2.43.0


From ca838f1ce914a040f3dfcab93841c80695c5070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:10 +0000
Subject: [PATCH 45/97] fix: cheetah writes compiled modules in their own
 encoding and fills stdin with the given data

---
 Cheetah/CheetahWrapper.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index f7fff4d..03f5fcd 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -593,11 +593,12 @@ you do have write permission to and re-run the tests.""")
             pysrc = TemplateClass.compile(file=sys.stdin,
                                           compilerSettings=compilerSettings,
                                           returnAClass=False)
-            output = pysrc if PY2 else pysrc.decode()
+            output = pysrc
         else:
             output = str(TemplateClass(file=sys.stdin,
+                                       searchList=self.searchList,
                                        compilerSettings=compilerSettings))
-        sys.stdout.write(output)
+        self._writeToStdout(output)
 
     def _compileOrFillBundle(self, b):
         C = self.chatter
@@ -641,24 +642,27 @@ be named according to the same rules as Python modules.""" % tup)
             else:
                 os.makedirs(dstDir)
         if self.opts.stdout:
-            if not PY2:
-                encoding = self.opts.encoding
-                if encoding and isinstance(output, bytes):
-                    output = output.decode(encoding)
-            sys.stdout.write(output)
+            self._writeToStdout(output)
         else:
             encoding = self.opts.encoding
-            if encoding:
-                if isinstance(output, bytes):
-                    output = output.decode(encoding)
+            if isinstance(output, bytes):  # in the encoding of the module
+                f = open(dst, 'wb')
+            elif encoding:
                 f = codecs.open(dst, 'w', encoding=encoding)
             else:
-                if not PY2 and isinstance(output, bytes):
-                    output = output.decode()
                 f = open(dst, 'w')
             f.write(output)
             f.close()
 
+    def _writeToStdout(self, output):
+        if not PY2 and isinstance(output, bytes):
+            if hasattr(sys.stdout, 'buffer'):
+                sys.stdout.flush()
+                sys.stdout.buffer.write(output)
+                return
+            output = output.decode(self.opts.encoding or 'utf-8')
+        sys.stdout.write(output)
+
 
 # Called when invoked as `cheetah`
 def _cheetah():
-- 
2.43.0


From 10e80485ef3b0a622b52efa0a7b0078d1153462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:10 +0000
Subject: [PATCH 46/97] fix: cheetah --idir=./dir maps sources as --idir=dir
 does

---
 Cheetah/CheetahWrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 03f5fcd..eb391f2 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -485,7 +485,8 @@ you do have write permission to and re-run the tests.""")
         iext = self.opts.iext
         odir = self.opts.odir
         oext = self.opts.oext
-        idirSlash = idir + os.sep
+        # the source paths are normalized
+        idirSlash = os.path.join(os.path.normpath(idir), '')
         bundles = []
         for src in sourceFiles:
             # 'base' is the subdirectory plus basename.
-- 
2.43.0


From dae5f93d928157bb0bab73c28c5a063b755b9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:11 +0000
Subject: [PATCH 47/97] fix: cheetah --encoding applies to the source files

---
 Cheetah/CheetahWrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index eb391f2..e49770f 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -605,6 +605,9 @@ you do have write permission to and re-run the tests.""")
         C = self.chatter
         TemplateClass = self._getTemplateClass()
         compilerSettings = self._getCompilerSettings()
+        if self.opts.encoding and 'encoding' not in compilerSettings:
+            compilerSettings = dict(compilerSettings,
+                                    encoding=self.opts.encoding)
         src = b.src
         dst = b.dst
         basename = b.basename
-- 
2.43.0


From 39140fb42d3b387c2b7b9639124bacae1d0f89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:59 +0000
Subject: [PATCH 48/97] fix: cheetah --parallel does not fail when two
 processes create a directory

---
 Cheetah/CheetahWrapper.py | 12 ++++++++----
 Cheetah/Utils/Misc.py     |  7 ++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index e49770f..a8334d6 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -641,10 +641,14 @@ be named according to the same rules as Python modules.""" % tup)
         if bak and not self.opts.stdout:
             shutil.copyfile(dst, bak)
         if dstDir and not os.path.exists(dstDir) and not self.opts.stdout:
-            if self.isCompile:
-                mkdirsWithPyInitFiles(dstDir)
-            else:
-                os.makedirs(dstDir)
+            try:
+                if self.isCompile:
+                    mkdirsWithPyInitFiles(dstDir)
+                else:
+                    os.makedirs(dstDir)
+            except OSError:
+                if not os.path.isdir(dstDir):  # made by a parallel process?
+                    raise
         if self.opts.stdout:
             self._writeToStdout(output)
         else:
diff --git a/Cheetah/Utils/Misc.py b/Cheetah/Utils/Misc.py
index a046f5f..0d20aac 100644
--- a/Cheetah/Utils/Misc.py
+++ b/Cheetah/Utils/Misc.py
@@ -60,7 +60,12 @@ def mkdirsWithPyInitFiles(path):
     if dir and not os.path.exists(dir):
         mkdirsWithPyInitFiles(dir)
     if not os.path.exists(path):
-        os.mkdir(path)
+        try:
+            os.mkdir(path)
+        except OSError:
+            if os.path.isdir(path):  # made by another process
+                return
+            raise
         init = os.path.join(path, "__init__.py")
         f = open(init, 'w')  # Open and close to produce empty file.
         f.close()
-- 
2.43.0


From fea1836599c0cf9346c8b2fb4759309160f1abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:06 +0000
Subject: [PATCH 49/97] fix: webInput returns the content of an uploaded file,
 not its first byte

---
 Cheetah/Utils/WebInputMixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Utils/WebInputMixin.py b/Cheetah/Utils/WebInputMixin.py
index b753bb0..d39424b 100644
--- a/Cheetah/Utils/WebInputMixin.py
+++ b/Cheetah/Utils/WebInputMixin.py
@@ -49,12 +49,13 @@ def _lookup(name, func, multi, converters):
         values = func(longName, None) or func(shortName, None)
     else:
         values = func(shortName, None)
-    # 'values' is a list of strings, a string or None.
+    # 'values' is a list of strings, a string, bytes (of an uploaded file)
+    # or None.
 
     # Step 3 -- Coerce 'values' to a list of zero, one or more strings.
     if values is None:
         values = []
-    elif isinstance(values, str):
+    elif not isinstance(values, (list, tuple)):
         values = [values]
 
     # Step 4 -- Find a _Converter object or raise TypeError.
-- 
2.43.0


From 70f394aea0cd2fc0f859714f82c7a6929835c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 50/97] fix: MondoReport pages end with the list, firstValue
 has no record before the first, percentOfTotal of non-numbers

---
 Cheetah/Tools/MondoReport.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Tools/MondoReport.py b/Cheetah/Tools/MondoReport.py
index e76de91..a04444e 100644
--- a/Cheetah/Tools/MondoReport.py
+++ b/Cheetah/Tools/MondoReport.py
@@ -203,6 +203,8 @@ class RecordStats(IndexFormats, ValuesGetterMixin):
         return self._index >= len(self._origList) - 1
 
     def _firstOrLastValue(self, field, currentIndex, otherIndex):
+        if otherIndex < 0:
+            return True
         currentValue = self._origList[currentIndex]  # Raises IndexError.
         try:
             otherValue = self._origList[otherIndex]
@@ -233,6 +235,8 @@ class RecordStats(IndexFormats, ValuesGetterMixin):
         except NegativeError:
             return default
         total = sum(lis)
+        if not isNumeric(val):
+            return default
         if total == 0.00:  # Avoid ZeroDivisionError.
             return default
         val = float(val)
@@ -407,7 +411,7 @@ class MondoReport:
         end = min(start + size, len(self._origList))
         mySlice = origList[start:end]
         ret = []
-        for rel in range(size):
+        for rel in range(len(mySlice)):
             abs_ = start + rel
             r = mySlice[rel]
             a = self._RecordStatsClass(origList, abs_)
-- 
2.43.0


From 865d9f6728b6d520b0f6c30df0e4bd9dac8845d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 51/97] fix: RecursiveNull can be tested for truth in Python 3

---
 Cheetah/Tools/RecursiveNull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Tools/RecursiveNull.py b/Cheetah/Tools/RecursiveNull.py
index bebf5bb..bda4792 100644
--- a/Cheetah/Tools/RecursiveNull.py
+++ b/Cheetah/Tools/RecursiveNull.py
@@ -25,10 +25,10 @@ class RecursiveNull(object):
         return ''
     if sys.version_info[0] >= 3:
         def __bool__(self):
-            return 0
+            return False
     else:
         def __nonzero__(self):
-            return 0
+            return False
 
     def __eq__(self, x):
         if x:
-- 
2.43.0


From ddf540826f2f78ee165571fd3f85026b83b64286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 52/97] fix: SiteHierarchy can be imported in Python 3

---
 Cheetah/Tools/SiteHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Tools/SiteHierarchy.py b/Cheetah/Tools/SiteHierarchy.py
index e52cde6..daaee95 100755
--- a/Cheetah/Tools/SiteHierarchy.py
+++ b/Cheetah/Tools/SiteHierarchy.py
@@ -20,7 +20,7 @@ There are methods you can override to customize the HTML output.
 try:
     from cStringIO import StringIO
 except ImportError:
-    from StringIO import StringIO
+    from io import StringIO
 
 ##################################################
 # CLASSES
-- 
2.43.0


From 60d5855c9e562d5a1bc283b2e1598c723f511f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:42 +0000
Subject: [PATCH 53/97] fix: #indent push levels belong to one template
 instance

---
 Cheetah/Utils/Indenter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Utils/Indenter.py b/Cheetah/Utils/Indenter.py
index c722040..ed0c866 100644
--- a/Cheetah/Utils/Indenter.py
+++ b/Cheetah/Utils/Indenter.py
@@ -94,7 +94,9 @@ class Indenter(object):
     On = 1
     Level = 0
     Chars = '    '
-    LevelStack = []
+
+    def __init__(self):
+        self.LevelStack = []
 
     def on(self):
         self.On = 1
-- 
2.43.0


From 2cd297311b214858378c0f947f7d395a7b8bc819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:50 +0000
Subject: [PATCH 54/97] fix: #end if inside the body of a macro named i does
 not end the macro

---
 Cheetah/Parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 70b31d9..f8b23a5 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -153,6 +153,7 @@ EOL = r'\r\n|\n|\r'
 EOLZ = EOL + r'|\Z'
 escCharLookBehind = nongroup(r'(?<=\A)', r'(?<!\\)')
 nameCharLookAhead = r'(?=[A-Za-z_])'
+wordCharRE = re.compile(r'\w')
 identRE = re.compile(r'[a-zA-Z_][a-zA-Z_0-9]*')
 EOLre = re.compile(r'(?:\r\n|\r|\n)')
 unescapedCRre = re.compile(r'(?<!\\)\r(?!\n)')
@@ -1801,7 +1802,8 @@ class _HighLevelParser(_LowLevelParser):
                     self.getDirectiveStartToken()
                     self.advance(len('end'))
                     self.getWhiteSpace()
-                    if self.startswith(directiveName):
+                    if self.startswith(directiveName) and not wordCharRE.match(
+                            self.src(), self.pos() + len(directiveName)):
                         if self.isLineClearToStartToken(endRawPos):
                             isLineClearToStartToken = True
                             endRawPos = self.findBOL(endRawPos)
-- 
2.43.0


From 35838abbdcbc94f8e6a7a7eed6bc3315c7f2e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:50 +0000
Subject: [PATCH 55/97] fix: a registered macro named i18n replaces the
 built-in one

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index f8b23a5..1b476b2 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1520,7 +1520,7 @@ class _HighLevelParser(_LowLevelParser):
             self._closeableDirectives.append(directiveName)
 
         macroDirectives = self.setting('macroDirectives', {}).copy()
-        macroDirectives['i18n'] = I18n
+        macroDirectives.setdefault('i18n', I18n)
 
         for macroName, callback in macroDirectives.items():
             if isinstance(callback, type):
-- 
2.43.0


From b693246c61a36c307beaff849cbe3abcc47c4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:51 +0000
Subject: [PATCH 56/97] fix: preprocessor settings given by the caller are not
 modified

---
 Cheetah/Template.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 6f65105..2b90615 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -7,6 +7,7 @@ for more information.
 
 ###############################################################################
 # DEPENDENCIES
+from copy import copy
 import sys                        # used in the error handling code
 import re                         # used to define the internal delims regex
 import logging
@@ -956,7 +957,7 @@ class Template(Servlet):
                 for k, v in arg.items():
                     setattr(settings, k, v)
             else:
-                settings = arg
+                settings = copy(arg)
 
             settings = klass._normalizePreprocessorSettings(settings)
             return klass._CHEETAH_defaultPreprocessorClass(settings)
@@ -990,6 +991,8 @@ class Template(Servlet):
 
         if not hasattr(settings, 'templateInitArgs'):
             settings.templateInitArgs = {}
+        # copy to leave the caller's dicts alone
+        settings.templateInitArgs = dict(settings.templateInitArgs)
         if 'searchList' not in settings.templateInitArgs:
             if not hasattr(settings, 'searchList') \
                     and hasattr(settings, 'namespaces'):
@@ -1010,11 +1013,12 @@ class Template(Servlet):
 
         if not hasattr(settings, 'compilerSettings'):
             settings.compilerSettings = {}
+        settings.compilerSettings = dict(settings.compilerSettings)
 
         klass._updateSettingsWithPreprocessTokens(
             compilerSettings=settings.compilerSettings,
-            placeholderToken=settings.placeholderToken,
-            directiveToken=settings.directiveToken
+            placeholderToken=getattr(settings, 'placeholderToken', None),
+            directiveToken=getattr(settings, 'directiveToken', None)
         )
         return settings
 
-- 
2.43.0


From c4236141ee0dcab610a23cc218d9cb08d094cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:50 +0000
Subject: [PATCH 57/97] fix: the text a macro expands to is kept before and
 after directives

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index ca98a1b..203066a 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -512,7 +512,7 @@ class MethodCompiler(GenUtils):
         if self._pendingStrConstChunks:
             src = self._pendingStrConstChunks[-1]
             BOL = max(src.rfind('\n') + 1, src.rfind('\r') + 1, 0)
-            if BOL < len(src):
+            if BOL < len(src) and not src[BOL:].strip(' \t\f'):
                 self._pendingStrConstChunks[-1] = src[:BOL]
 
     def isErrorCatcherOn(self):
-- 
2.43.0


From 8d03b9ee65116a033195edd5118aeb4660920e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:50 +0000
Subject: [PATCH 58/97] fix: a macro may expand to more text than the template
 has

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 1b476b2..7458a5e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2582,12 +2582,14 @@ class _HighLevelParser(_LowLevelParser):
         # add a comment to the output about the macro src that is being parsed
         # or add a comment prefix to all the comments added by the compiler
         self._src = srcFromMacroOutput
+        self._srcLen = len(srcFromMacroOutput)
         self.setPos(0)
         self.setBreakPoint(len(srcFromMacroOutput))
 
         self.parse(assertEmptyStack=False)
 
         self._src = origParseSrc
+        self._srcLen = len(origParseSrc)
         self.setBreakPoint(origBreakPoint)
         self.setPos(origPos)
 
-- 
2.43.0


From b3597f287622eca5dc7b012a673ff9a81c659b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:36 +0000
Subject: [PATCH 59/97] fix: errors in generated code are located in the
 template even while another exception is handled

---
 Cheetah/Template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 2b90615..b515105 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -2025,9 +2025,9 @@ def genParserErrorFromPythonException(source, file,
 
     filename = isinstance(file, (str, unicode)) and file or None
 
-    sio = StringIO()
-    traceback.print_exc(1, sio)
-    formatedExc = sio.getvalue()
+    # without the exceptions in whose handlers the template is compiled
+    formatedExc = ''.join(
+        traceback.format_exception_only(type(exception), exception))
 
     if hasattr(exception, 'lineno'):
         pyLineno = exception.lineno
-- 
2.43.0


From 9f2130b26f4cef793f14d4bcb567168cc853f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:50 +0000
Subject: [PATCH 60/97] fix: preprocessors set on a Template subclass do not
 preprocess themselves

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index b515105..229c858 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1008,7 +1008,7 @@ class Template(Servlet):
 
         if not hasattr(settings, 'templateAPIClass'):
             class PreprocessTemplateAPIClass(klass):
-                pass
+                _CHEETAH_preprocessors = None
             settings.templateAPIClass = PreprocessTemplateAPIClass
 
         if not hasattr(settings, 'compilerSettings'):
-- 
2.43.0


From 56057c21fd55b18f685652f905c936f6b03ac18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:24 +0000
Subject: [PATCH 61/97] fix: white space before an inline macro call is kept

---
 Cheetah/Parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 7458a5e..e0ca7f8 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2585,6 +2585,9 @@ class _HighLevelParser(_LowLevelParser):
         self._srcLen = len(srcFromMacroOutput)
         self.setPos(0)
         self.setBreakPoint(len(srcFromMacroOutput))
+        if not isLineClearToStartToken:
+            # keep the text before the call apart from that of the macro
+            self._compiler.addStrConst('')
 
         self.parse(assertEmptyStack=False)
 
-- 
2.43.0


From 6d6e399819b202ba7c4f3016c0a8aae636eabc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:07 +0000
Subject: [PATCH 62/97] fix: templates read from binary files are decoded

---
 Cheetah/Compiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 203066a..2ab3245 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1732,6 +1732,13 @@ class ModuleCompiler(SettingsManager, GenUtils):
             self._fileBaseNameRoot, self._fileBaseNameExt = \
                 os.path.splitext(self._fileBaseName)
 
+        if isinstance(source, bytes) and not PY2:
+            # read from a binary file: the encoding directives tell the
+            # encoding
+            match = encodingDirectiveRE.search(source.decode('latin-1')) \
+                or unicodeDirectiveRE.search(source.decode('latin-1'))
+            source = source.decode(match and match.group(1) or 'utf-8')
+
         if not isinstance(source, string_type):
             # By converting to unicode here we allow objects
             # such as other Templates to be passed in
-- 
2.43.0


From c29ff3c6dd7b289bfa68b198c654945db3dfaa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:42 +0000
Subject: [PATCH 63/97] fix: templates in files of any name can be compiled

---
 Cheetah/convertTmplPathToModuleName.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Cheetah/convertTmplPathToModuleName.py b/Cheetah/convertTmplPathToModuleName.py
index 221d76a..2cdf732 100644
--- a/Cheetah/convertTmplPathToModuleName.py
+++ b/Cheetah/convertTmplPathToModuleName.py
@@ -1,4 +1,5 @@
 import os.path
+import re
 import string
 from .compat import unicode
 
@@ -24,4 +25,8 @@ def convertTmplPathToModuleName(tmplPath,
     except (UnicodeError, TypeError):
         moduleName = unicode(splitdrive(tmplPath)[1])\
             .translate(unicode(_pathNameTransChars))
+    # a name has only letters, digits and '_' and begins with no digit
+    moduleName = re.sub('[^0-9A-Za-z_]', '_', moduleName)
+    if moduleName[:1].isdigit():
+        moduleName = '_' + moduleName
     return moduleName
-- 
2.43.0


From 1fbacc0cd04b2725571a4b5894ede35103d510f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:40 +0000
Subject: [PATCH 64/97] fix: only blanks, tabs and form feeds are indentation
 before a directive

---
 Cheetah/Parser.py       | 2 +-
 Cheetah/SourceReader.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index e0ca7f8..6d0a12d 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1671,7 +1671,7 @@ class _HighLevelParser(_LowLevelParser):
         if (not self.atEnd()) and \
                 self.setting('gobbleWhitespaceAroundMultiLineComments'):
             restOfLine = self[self.pos():self.findEOL()]
-            if not restOfLine.strip():  # WS only to EOL
+            if not restOfLine.strip(' \f\t'):  # WS only to EOL
                 self.readToEOL(gobble=isLineClearToStartToken)
 
             if isLineClearToStartToken and \
diff --git a/Cheetah/SourceReader.py b/Cheetah/SourceReader.py
index 5b18b38..c56c5d3 100644
--- a/Cheetah/SourceReader.py
+++ b/Cheetah/SourceReader.py
@@ -235,7 +235,7 @@ class SourceReader(object):
         self.checkPos(pos)
         src = self.src()
         BOL = self.findBOL(pos)
-        return BOL == pos or src[BOL:pos].isspace()
+        return BOL == pos or not src[BOL:pos].strip(' \f\t')
 
     def matches(self, strOrRE):
         if isinstance(strOrRE, (str, unicode)):
-- 
2.43.0


From 104c4305a48c25b97bb80a3fada2ce3003369308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:50 +0000
Subject: [PATCH 65/97] fix: blanks after #errorCatcher NAME are part of the
 directive

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 6d0a12d..d0f7c35 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2769,6 +2769,7 @@ class _HighLevelParser(_LowLevelParser):
         errorCatcherName = self.getIdentifier()
         errorCatcherName = self._applyExpressionFilters(
             errorCatcherName, 'errorcatcher', startPos=startPos)
+        self.getWhiteSpace()
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
         self._compiler.setErrorCatcher(errorCatcherName)
 
-- 
2.43.0


From fecbd159ee4b21beaada15c56522c2bc7042040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:09 +0000
Subject: [PATCH 66/97] fix: #end raw and the like end their tag as other
 directives do

---
 Cheetah/Parser.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index d0f7c35..36a5707 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1804,9 +1804,8 @@ class _HighLevelParser(_LowLevelParser):
                     self.getWhiteSpace()
                     if self.startswith(directiveName) and not wordCharRE.match(
                             self.src(), self.pos() + len(directiveName)):
-                        if self.isLineClearToStartToken(endRawPos):
-                            isLineClearToStartToken = True
-                            endRawPos = self.findBOL(endRawPos)
+                        isLineClearToStartToken = \
+                            self.isLineClearToStartToken(endRawPos)
                         # to the end of directiveName
                         self.advance(len(directiveName))
                         self.getWhiteSpace()
@@ -1817,20 +1816,18 @@ class _HighLevelParser(_LowLevelParser):
             self.advance()
             finalPos = endRawPos = self.pos()
 
-        textEaten = self.readTo(endRawPos, start=startPos)
         self.setPos(finalPos)
 
         endOfFirstLinePos = self.findEOL()
 
-        if (not self.atEnd()) and self.matchDirectiveEndToken():
-            self.getDirectiveEndToken()
-        elif isLineClearToStartToken and (not self.atEnd()) \
-                and self.peek() in '\r\n':
-            self.readToEOL(gobble=True)
-
-        if isLineClearToStartToken and self.pos() > endOfFirstLinePos:
-            self._compiler.handleWSBeforeDirective()
-        return textEaten
+        # the text before this directive has nothing to do with the end tag
+        self._compiler.commitStrConst()
+        self._eatRestOfDirectiveTag(isLineClearToStartToken,
+                                    endOfFirstLinePos)
+        if isLineClearToStartToken and (
+                self.atEnd() or self.pos() > endOfFirstLinePos):
+            endRawPos = self.findBOL(endRawPos)
+        return self.src()[startPos:endRawPos]
 
     def eatSimpleExprDirective(self, directiveName,
                                includeDirectiveNameInExpr=True):
-- 
2.43.0


From ef194b7151da444f805feeed0482e66af398650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 67/97] fix: white space before a #def is not taken by a later
 directive

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 36a5707..e127223 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2207,6 +2207,8 @@ class _HighLevelParser(_LowLevelParser):
                                 if name == 'def']) > 1)
         if directiveName == 'block' or (
                 directiveName == 'def' and not isNestedDef):
+            # keep it from the directives that follow the definition
+            self._compiler.commitStrConst()
             self._compiler.startMethodDef(methodName, argsList, parserComment)
         else:  # closure
             self._useSearchList_orig = self.setting('useSearchList')
-- 
2.43.0


From 463505aeadec53eb30a4cae516629088aa518884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:03 +0000
Subject: [PATCH 68/97] fix: nested closures restore the name lookup of the
 text around them

---
 Cheetah/Parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index e127223..4d114f6 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1455,6 +1455,7 @@ class _HighLevelParser(_LowLevelParser):
         self._macros = {}
         self._macroDetails = {}
         self._openDirectivesStack = []
+        self._useSearchList_orig = []  # of the open closures
 
     def cleanup(self):
         """Cleanup to remove any possible reference cycles
@@ -1939,7 +1940,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.commitStrConst()
             self._compiler.dedent()
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchList_orig.pop())
 
     # specific directive eat methods
 
@@ -2211,7 +2212,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.commitStrConst()
             self._compiler.startMethodDef(methodName, argsList, parserComment)
         else:  # closure
-            self._useSearchList_orig = self.setting('useSearchList')
+            self._useSearchList_orig.append(self.setting('useSearchList'))
             self.setSetting('useSearchList', False)
             self._compiler.addClosure(methodName, argsList, parserComment)
 
@@ -2866,7 +2867,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.closeDef()
         else:
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchList_orig.pop())
             self._compiler.commitStrConst()
             self._compiler.dedent()
     ###
-- 
2.43.0


From 8c046296fb517e7389b958f2c460873ebfa4d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:10 +0000
Subject: [PATCH 69/97] fix: a multi-line comment alone on the last line takes
 its indentation with it

---
 Cheetah/Parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4d114f6..b9c49be 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1669,8 +1669,7 @@ class _HighLevelParser(_LowLevelParser):
         if not self.atEnd():
             self.getMultiLineCommentEndToken()
 
-        if (not self.atEnd()) and \
-                self.setting('gobbleWhitespaceAroundMultiLineComments'):
+        if self.setting('gobbleWhitespaceAroundMultiLineComments'):
             restOfLine = self[self.pos():self.findEOL()]
             if not restOfLine.strip(' \f\t'):  # WS only to EOL
                 self.readToEOL(gobble=isLineClearToStartToken)
-- 
2.43.0


From 2b3dda4e7b1175aadfa48fb5ba413feba4e62838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:10 +0000
Subject: [PATCH 70/97] fix: #encoding and #shBang treat white space as other
 directives do

---
 Cheetah/Parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b9c49be..8c254e5 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1953,22 +1953,28 @@ class _HighLevelParser(_LowLevelParser):
 
     def eatShbang(self):
         # filtered
+        isLineClearToStartToken = self.isLineClearToStartToken()
+        if isLineClearToStartToken:
+            self._compiler.handleWSBeforeDirective()
         self.getDirectiveStartToken()
         self.advance(len('shBang'))
         self.getWhiteSpace()
         startPos = self.pos()
-        shBang = self.readToEOL()
+        shBang = self.readToEOL(gobble=isLineClearToStartToken)
         shBang = self._applyExpressionFilters(shBang, 'shbang',
                                               startPos=startPos)
         self._compiler.setShBang(shBang.strip())
 
     def eatEncoding(self):
         # filtered
+        isLineClearToStartToken = self.isLineClearToStartToken()
+        if isLineClearToStartToken:
+            self._compiler.handleWSBeforeDirective()
         self.getDirectiveStartToken()
         self.advance(len('encoding'))
         self.getWhiteSpace()
         startPos = self.pos()
-        encoding = self.readToEOL()
+        encoding = self.readToEOL(gobble=isLineClearToStartToken)
         encoding = self._applyExpressionFilters(encoding, 'encoding',
                                                 startPos=startPos)
         self._compiler.setModuleEncoding(encoding.strip())
-- 
2.43.0


From 26930fc1ebf64082e2dba0a4eba9b17fc91442b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:04 +0000
Subject: [PATCH 71/97] fix: the indentation of #end raw is no part of the raw
 text

---
 Cheetah/Parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 8c254e5..1e1ee7d 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1824,8 +1824,7 @@ class _HighLevelParser(_LowLevelParser):
         self._compiler.commitStrConst()
         self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                     endOfFirstLinePos)
-        if isLineClearToStartToken and (
-                self.atEnd() or self.pos() > endOfFirstLinePos):
+        if isLineClearToStartToken:
             endRawPos = self.findBOL(endRawPos)
         return self.src()[startPos:endRawPos]
 
-- 
2.43.0


From 27867bb6f424b394cdd8086988b8862db05efd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:49 +0000
Subject: [PATCH 72/97] fix: #set knows the operators //= and @=

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 1e1ee7d..3b00f2e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -88,7 +88,7 @@ shiftOps = ('>>', '<<')
 bitwiseOps = ('&', '|', '^')
 assignOp = '='
 augAssignOps = ('+=', '-=', '/=', '*=', '**=', '^=', '%=',
-                '>>=', '<<=', '&=', '|=', )
+                '>>=', '<<=', '&=', '|=', '//=', '@=', )
 assignmentOps = (assignOp,) + augAssignOps
 
 compOps = ('<', '>', '==', '!=', '<=', '>=', '<>', 'is', 'in',)
-- 
2.43.0


From 600ccd2a3ae3dc9e5e05d78e4ded3e16b96a2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:07 +0000
Subject: [PATCH 73/97] fix: #set takes names that begin with local, global or
 module

---
 Cheetah/Parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3b00f2e..b075a1d 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -168,6 +168,9 @@ encodingDirectiveRE = re.compile(
     r'(?:^|\r\n|\r|\n)\s*#\s{0,5}encoding[:\s]*([-\w.]*)\s*(?:\r\n|\r|\n)',
     re.MULTILINE)
 
+# not a variable whose name begins like that
+setStyleRE = re.compile(r'(?:local|global|module)\b(?![ \f\t]*=)')
+
 escapedNewlineRE = re.compile(r'(?<!\\)((\\\\)*)\\(n|012)')
 
 directiveNamesAndParsers = {
@@ -2331,14 +2334,14 @@ class _HighLevelParser(_LowLevelParser):
         self.advance(3)
         self.getWhiteSpace()
         style = SET_LOCAL
-        if self.startswith('local'):
+        if self.matches(setStyleRE) and self.startswith('local'):
             self.getIdentifier()
             self.getWhiteSpace()
-        elif self.startswith('global'):
+        elif self.matches(setStyleRE) and self.startswith('global'):
             self.getIdentifier()
             self.getWhiteSpace()
             style = SET_GLOBAL
-        elif self.startswith('module'):
+        elif self.matches(setStyleRE) and self.startswith('module'):
             self.getIdentifier()
             self.getWhiteSpace()
             style = SET_MODULE
-- 
2.43.0


From 3c1203e403557d88bec3c87e2273f682a682cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:07 +0000
Subject: [PATCH 74/97] fix: #set global assigns to several names

---
 Cheetah/Compiler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 2ab3245..b98f8e3 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -593,8 +593,13 @@ class MethodCompiler(GenUtils):
             else:
                 primary = LVALUE
                 secondary = ''
-            LVALUE = \
-                'self._CHEETAH__globalSetVars["' + primary + '"]' + secondary
+            if ',' in LVALUE and re.match(r'[\s\w,()*]+$', LVALUE):
+                # several names
+                LVALUE = re.sub(r'\w+', r'self._CHEETAH__globalSetVars'
+                                r'["\g<0>"]', LVALUE)
+            else:
+                LVALUE = 'self._CHEETAH__globalSetVars["' \
+                    + primary + '"]' + secondary
             expr = LVALUE + ' ' + OP + ' ' + RVALUE.strip()
 
         if setStyle is SET_MODULE:
-- 
2.43.0


From 6e34174d6e3321d9438e07f85fa8e5c9b00f30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:39 +0000
Subject: [PATCH 75/97] fix: class and static methods with **kw can look names
 up

---
 Cheetah/Compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index b98f8e3..4999528 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1205,7 +1205,8 @@ class AutoMethodCompiler(MethodCompiler):
             elif not self.isClassMethod() and not self.isStaticMethod():
                 self.addChunk('SL = self._CHEETAH__searchList')
             else:
-                self.addChunk('SL = [KWS]')
+                self.addChunk('SL = [%s]' % (
+                    getattr(self, '_kwargsName', None) or '{}'))
         if self.setting('useFilters'):
             if self.isClassMethod() or self.isStaticMethod():
                 self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
-- 
2.43.0


From 60821f151a10e34b2ec55869cc96f9d767388c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:26 +0000
Subject: [PATCH 76/97] fix: a single-line directive's body cannot close a
 directive outside it

---
 Cheetah/Parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b075a1d..d43c214 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1458,6 +1458,7 @@ class _HighLevelParser(_LowLevelParser):
         self._macros = {}
         self._macroDetails = {}
         self._openDirectivesStack = []
+        self._openDirectivesFloor = 0
         self._useSearchList_orig = []  # of the open closures
 
     def cleanup(self):
@@ -1593,7 +1594,8 @@ class _HighLevelParser(_LowLevelParser):
             origBP = self.breakPoint()
             self.setBreakPoint(breakPoint)
             assertEmptyStack = False
-            origOpenDirectives = self._openDirectivesStack[:]
+            origFloor = self._openDirectivesFloor
+            self._openDirectivesFloor = len(self._openDirectivesStack)
 
         while not self.atEnd():
             if self.matchCommentStartToken():
@@ -1615,10 +1617,11 @@ class _HighLevelParser(_LowLevelParser):
         if assertEmptyStack:
             self.assertEmptyOpenDirectivesStack()
         if breakPoint:
-            if self._openDirectivesStack != origOpenDirectives:
+            if len(self._openDirectivesStack) != self._openDirectivesFloor:
                 raise ParseError(
                     self, msg="The directives in a single-line #directive: "
                     "must be closed on the same line")
+            self._openDirectivesFloor = origFloor
             self.setBreakPoint(origBP)
 
     # non-directive eat methods
@@ -2886,6 +2889,10 @@ class _HighLevelParser(_LowLevelParser):
     def popFromOpenDirectivesStack(self, directiveName):
         if not self._openDirectivesStack:
             raise ParseError(self, msg="#end found, but nothing to end")
+        if len(self._openDirectivesStack) <= self._openDirectivesFloor:
+            raise ParseError(
+                self, msg="The directives in a single-line #directive: "
+                "must be closed on the same line")
 
         if self._openDirectivesStack[-1] == directiveName:
             del self._openDirectivesStack[-1]
-- 
2.43.0


From a96c14b2a1a96eca28891efc703fc59d228f8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:50 +0000
Subject: [PATCH 77/97] fix: 'else if' is rewritten only where it is the
 directive's own words

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 4999528..8a79e97 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -670,7 +670,7 @@ class MethodCompiler(GenUtils):
         self.dedent()
 
     def addElse(self, expr, dedent=True, lineCol=None):
-        expr = re.sub(r'else[ \f\t]+if', 'elif', expr)
+        expr = re.sub(r'^else[ \f\t]+if\b', 'elif', expr)
         self.addReIndentingDirective(expr, dedent=dedent, lineCol=lineCol)
 
     def addElif(self, expr, dedent=True, lineCol=None):
-- 
2.43.0


From 821c938e39b3bebecc5a5a2d204409700a82b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:57 +0000
Subject: [PATCH 78/97] fix: a method called within #cache is cached also when
 there is a transaction

---
 Cheetah/Compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 8a79e97..422ad95 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -860,6 +860,9 @@ class MethodCompiler(GenUtils):
             % locals())
         self.indent()
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
+        self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
+                      % locals())
+        self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk('trans = _cacheCollector_%(ID)s = DummyTransaction()'
                       % locals())
         self.addChunk('write = _cacheCollector_%(ID)s.response().write'
@@ -876,6 +879,8 @@ class MethodCompiler(GenUtils):
         self.closeProtectedRegion()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
+        self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s'
+                      % locals())
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
@@ -884,6 +889,7 @@ class MethodCompiler(GenUtils):
         self.addChunk('_cacheItem_%(ID)s.setData(_cacheData)' % locals())
         self.addChunk('del _cacheData')
         self.addChunk('del _cacheCollector_%(ID)s' % locals())
+        self.addChunk('del _wasBuffering%(ID)s' % locals())
         self.addChunk('del _orig_trans%(ID)s' % locals())
         self.dedent()
         self.addChunk('## END CACHE REGION: ' + ID)
-- 
2.43.0


From 129527bda7508b339c0b3d514e7c8d333a0186c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 79/97] fix: the text of doc comments is quoted in the
 generated docstrings

---
 Cheetah/Compiler.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 422ad95..22de40b 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -136,6 +136,12 @@ DEFAULT_COMPILER_SETTINGS = \
     dict([(v[0], v[1]) for v in _DEFAULT_COMPILER_SETTINGS])
 
 
+def escapeDocString(line):
+    """The code of a line of text in a triple-quoted string.
+    """
+    return line.replace('\\', '\\\\').replace('"""', '\\"\\"\\"')
+
+
 class GenUtils(object):
     """
     An abstract baseclass for the Compiler classes that provides methods that
@@ -422,14 +428,14 @@ class MethodCompiler(GenUtils):
 
         ind = self._indent*2  # noqa: E226 missing whitespace around operator
         docStr = (ind + '"""\n' + ind
-                  + ('\n' + ind).join([ln.replace('"""', "'''")
+                  + ('\n' + ind).join([escapeDocString(ln)
                                        for ln in self._docStringLines])
                   + '\n' + ind + '"""\n')
         return docStr
 
     # methods for adding code
     def addMethDocString(self, line):
-        self._docStringLines.append(line.replace('%', '%%'))
+        self._docStringLines.append(line)
 
     def addChunk(self, chunk):
         self.commitStrConst()
@@ -1495,7 +1501,8 @@ class ClassCompiler(GenUtils):
         self._decoratorsForNextMethod.append(decoratorExpr)
 
     def addClassDocString(self, line):
-        self._classDocStringLines.append(line.replace('%', '%%'))
+        self._classDocStringLines.append(
+            escapeDocString(line).replace('%', '%%'))
 
     def addChunkToInit(self, chunk):
         self._initMethChunks.append(chunk)
@@ -2219,7 +2226,8 @@ if not hasattr(%(mainClassName)s, '_initCheetahAttributes'):
         if not self._moduleDocStringLines:
             return ''
 
-        return ('"""' + '\n'.join(self._moduleDocStringLines)
+        return ('"""' + '\n'.join([escapeDocString(ln)
+                                   for ln in self._moduleDocStringLines])
                 + '\n"""\n')
 
     def specialVars(self):
-- 
2.43.0


From 3b29a035f2c3b26c9e4ea2f4c703fd1233e0e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 80/97] fix: a single-line #def, #block or #closure whose
 arguments take several lines

---
 Cheetah/Parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index d43c214..4f247bc 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2169,6 +2169,8 @@ class _HighLevelParser(_LowLevelParser):
                            and [name for name in self._openDirectivesStack
                                 if name == 'def'])
             self.getc()
+            # the arguments may have taken several lines
+            endOfFirstLinePos = self.findEOL()
             rawSignature = self[startPos:endOfFirstLinePos]
             self._eatSingleLineDef(directiveName=directiveName,
                                    methodName=methodName,
@@ -2231,7 +2233,8 @@ class _HighLevelParser(_LowLevelParser):
     def _eatSingleLineDef(self, directiveName, methodName,
                           argsList, startPos, endPos):
         # filtered in calling method
-        fullSignature = self[startPos:endPos]
+        fullSignature = ' '.join(
+            [line.strip() for line in self[startPos:endPos].splitlines()])
         parserComment = ('## Generated from ' + fullSignature
                          + ' at line %s, col %s' % self.getRowCol(startPos)
                          + '.')
-- 
2.43.0


From 51ed5c15e4f9d5c981ad124b3e211cba5b0dfef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 81/97] fix: a comment that begins with '[@' or '^@' is no
 special variable

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4f247bc..0a610db 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -158,7 +158,7 @@ identRE = re.compile(r'[a-zA-Z_][a-zA-Z_0-9]*')
 EOLre = re.compile(r'(?:\r\n|\r|\n)')
 unescapedCRre = re.compile(r'(?<!\\)\r(?!\n)')
 
-specialVarRE = re.compile(r'([a-zA-z_]+)@')  # for matching specialVar comments
+specialVarRE = re.compile(r'([a-zA-Z_]+)@')  # for matching specialVar comments
 # e.g. ##author@ Tavis Rudd
 
 unicodeDirectiveRE = re.compile(
-- 
2.43.0


From eaeeff1f986c11d95d04e89c770c89f890570418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 82/97] fix: #include of a variable whose name begins with
 'raw' or 'source'

---
 Cheetah/Parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 0a610db..9016b68 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2412,12 +2412,14 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         includeFrom = 'file'
         isRaw = False
-        if self.startswith('raw'):
+        if self.startswith('raw') and not wordCharRE.match(
+                self.src(), self.pos() + len('raw')):
             self.advance(3)
             isRaw = True
 
         self.getWhiteSpace()
-        if self.startswith('source'):
+        if self.startswith('source') and not wordCharRE.match(
+                self.src(), self.pos() + len('source')):
             self.advance(len('source'))
             includeFrom = 'str'
             self.getWhiteSpace()
-- 
2.43.0


From c5ffbb493ed4ac0cd0c13b67c38d3f37330b2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:56 +0000
Subject: [PATCH 83/97] fix: #filter does not hide a variable called filterName

---
 Cheetah/Compiler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 22de40b..007f5b6 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1089,21 +1089,20 @@ class MethodCompiler(GenUtils):
                     'self._CHEETAH__initialFilter')
             else:
                 # is string representing the name of a builtin filter
-                self.addChunk('filterName = ' + repr(theFilter))
                 self.addChunk(
                     'if "' + theFilter + '" in self._CHEETAH__filters:')
                 self.indent()
                 self.addChunk(
                     '_filter = self._CHEETAH__currentFilter = '
-                    'self._CHEETAH__filters[filterName]')
+                    'self._CHEETAH__filters["' + theFilter + '"]')
                 self.dedent()
                 self.addChunk('else:')
                 self.indent()
                 self.addChunk(
                     '_filter = self._CHEETAH__currentFilter'
-                    + ' = \\\n\t\t\tself._CHEETAH__filters[filterName] = '
-                    + 'getattr(self._CHEETAH__filtersLib, filterName)'
-                    + '(self).filter')
+                    + ' = \\\n\t\t\tself._CHEETAH__filters["' + theFilter
+                    + '"] = getattr(self._CHEETAH__filtersLib, "'
+                    + theFilter + '")(self).filter')
                 self.dedent()
         self.startProtectedRegion()
 
-- 
2.43.0


From e5ead14dbd8bd14ea626f7d0696f2f09c5c54e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:24 +0000
Subject: [PATCH 84/97] fix: Template subclasses may have methods, properties
 and false attributes

The attributes of a subclass given a source were set raw on the instance:
methods and class methods could not be called, a property raised
AttributeError, and attributes with a false value were lost.
---
 Cheetah/Template.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 229c858..305379b 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1677,18 +1677,20 @@ class Template(Servlet):
                                      compilerSettings=compilerSettings,
                                      keepRefToGeneratedCode=True)
 
+        attrs = {}
         if not self.__class__ == Template:
             # Only propogate attributes if we're in a subclass of
             # Template
-            for k, v in self.__class__.__dict__.items():
-                if not v or k.startswith('__'):
+            for k in self.__class__.__dict__:
+                if k.startswith('__') or k in templateClass.__dict__:
                     continue
                 # Propogate the class attributes to the instance
                 # since we're about to obliterate self.__class__
                 # (see: cheetah.Tests.Tepmlate.SubclassSearchListTest)
-                setattr(self, k, v)
+                attrs[k] = getattr(self, k)
 
         self.__class__ = templateClass
+        self.__dict__.update(attrs)
         # must initialize it so instance attributes are accessible
         templateClass.__init__(self,
                                # _globalSetVars=self._CHEETAH__globalSetVars,
-- 
2.43.0


From da5891edce9a12663ceb26508d7dd5e1883c4ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:08 +0000
Subject: [PATCH 85/97] fix: SkeletonPage puts the code of javascriptTags into
 the script tag

javascriptTags() wrote the version of the language twice and the code never.
---
 Cheetah/Templates/_SkeletonPage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Templates/_SkeletonPage.py b/Cheetah/Templates/_SkeletonPage.py
index e4590f9..456f233 100644
--- a/Cheetah/Templates/_SkeletonPage.py
+++ b/Cheetah/Templates/_SkeletonPage.py
@@ -121,7 +121,7 @@ class _SkeletonPage(Template):
             javascriptTagsTxt += ['<script language="JavaScript',
                                   str(details[0]),
                                   '" type="text/javascript"><!--\n',
-                                  str(details[0]), '\n//--></script>\n']
+                                  str(details[1]), '\n//--></script>\n']
 
         for key, details in self._javascriptLibs.items():
             if not isinstance(details, (list, tuple)):
-- 
2.43.0


From eb656fc3dcb9a15e5d433fd4c5aa7ca7a0945100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:08 +0000
Subject: [PATCH 86/97] fix: SkeletonPage.imgTag works outside of a servlet
 with normalizePath

No class of Cheetah has normalizePath(), so every call raised AttributeError.
---
 Cheetah/Templates/_SkeletonPage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Templates/_SkeletonPage.py b/Cheetah/Templates/_SkeletonPage.py
index 456f233..8b65de7 100644
--- a/Cheetah/Templates/_SkeletonPage.py
+++ b/Cheetah/Templates/_SkeletonPage.py
@@ -145,7 +145,8 @@ class _SkeletonPage(Template):
         specified they are calculated using PIL or ImageMagick if available.
         """
 
-        src = self.normalizePath(src)
+        if hasattr(self, 'normalizePath'):  # provided by the servlet class
+            src = self.normalizePath(src)
 
         if not width or not height:
             try:  # see if the dimensions can be calc'd with PIL
-- 
2.43.0


From 921843491dd5563dd458a3a45c29e32f0e461bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:24 +0000
Subject: [PATCH 87/97] fix: put the start marker of a single-line #block
 before its text

With includeBlockMarkers, '#block name: text' wrote the start marker after
the text of the block.
---
 Cheetah/Parser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 9016b68..2bee943 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2155,7 +2155,8 @@ class _HighLevelParser(_LowLevelParser):
             argsList = []
 
         def includeBlockMarkers():
-            if self.setting('includeBlockMarkers'):
+            if directiveName == 'block' \
+                    and self.setting('includeBlockMarkers'):
                 startMarker = self.setting('blockMarkerStart')
                 self._compiler.addStrConst(
                     startMarker[0] + methodName + startMarker[1])
@@ -2176,13 +2177,13 @@ class _HighLevelParser(_LowLevelParser):
                                    methodName=methodName,
                                    argsList=argsList,
                                    startPos=startPos,
-                                   endPos=endOfFirstLinePos)
+                                   endPos=endOfFirstLinePos,
+                                   beforeBody=includeBlockMarkers)
             if directiveName == 'def' and not isNestedDef:
                 # @@TR: must come before _eatRestOfDirectiveTag...
                 # ...for some reason.
                 self._compiler.closeDef()
             elif directiveName == 'block':
-                includeBlockMarkers()
                 self._compiler.closeBlock()
             elif directiveName == 'closure' or isNestedDef:
                 self._compiler.dedent()
@@ -2198,8 +2199,7 @@ class _HighLevelParser(_LowLevelParser):
                 directiveName=directiveName, methodName=methodName,
                 argsList=argsList, startPos=startPos,
                 isLineClearToStartToken=isLineClearToStartToken)
-            if directiveName == 'block':
-                includeBlockMarkers()
+            includeBlockMarkers()
 
         return methodName, rawSignature
 
@@ -2231,7 +2231,7 @@ class _HighLevelParser(_LowLevelParser):
         return methodName
 
     def _eatSingleLineDef(self, directiveName, methodName,
-                          argsList, startPos, endPos):
+                          argsList, startPos, endPos, beforeBody=None):
         # filtered in calling method
         fullSignature = ' '.join(
             [line.strip() for line in self[startPos:endPos].splitlines()])
@@ -2250,6 +2250,8 @@ class _HighLevelParser(_LowLevelParser):
             self.setSetting('useSearchList', False)
             self._compiler.addClosure(methodName, argsList, parserComment)
 
+        if beforeBody:
+            beforeBody()
         self.getWhiteSpace(max=1)
         self.parse(breakPoint=endPos)
         if directiveName == 'closure' or (
-- 
2.43.0


From 6d6b4d4127257ec3ae3d84b086db89040ee271ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:38 +0000
Subject: [PATCH 88/97] fix: let settings change within a method

A #compiler or #compiler-settings directive that turned useNameMapper or
useFilters off removed the search list or the filter from the whole method,
so the placeholders before it failed with NameError.
---
 Cheetah/Compiler.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 007f5b6..2bb0716 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1206,23 +1206,24 @@ class AutoMethodCompiler(MethodCompiler):
             self.addChunk('trans = DummyTransaction()')
             self.addChunk('_dummyTrans = True')
         self.addChunk('write = trans.response().write')
-        if self.setting('useNameMapper'):
-            argNames = [arg[0] for arg in self._argStringList]
-            allowSearchListAsMethArg = self.setting('allowSearchListAsMethArg')
-            if allowSearchListAsMethArg and 'SL' in argNames:
-                pass
-            elif allowSearchListAsMethArg and 'searchList' in argNames:
-                self.addChunk('SL = searchList')
-            elif not self.isClassMethod() and not self.isStaticMethod():
-                self.addChunk('SL = self._CHEETAH__searchList')
-            else:
-                self.addChunk('SL = [%s]' % (
-                    getattr(self, '_kwargsName', None) or '{}'))
-        if self.setting('useFilters'):
-            if self.isClassMethod() or self.isStaticMethod():
-                self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
-            else:
-                self.addChunk('_filter = self._CHEETAH__currentFilter')
+        # set up the search list and the filter in any case: the settings may
+        # have been other ones in an earlier part of the method
+        argNames = [arg[0] for arg in self._argStringList]
+        allowSearchListAsMethArg = self.setting('allowSearchListAsMethArg')
+        if 'SL' in argNames and (allowSearchListAsMethArg
+                                 or not self.setting('useNameMapper')):
+            pass
+        elif allowSearchListAsMethArg and 'searchList' in argNames:
+            self.addChunk('SL = searchList')
+        elif not self.isClassMethod() and not self.isStaticMethod():
+            self.addChunk('SL = self._CHEETAH__searchList')
+        else:
+            self.addChunk('SL = [%s]' % (
+                getattr(self, '_kwargsName', None) or '{}'))
+        if self.isClassMethod() or self.isStaticMethod():
+            self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
+        else:
+            self.addChunk('_filter = self._CHEETAH__currentFilter')
         self.addChunk('')
         self.addChunk("#"*40)  # noqa: E226 missing whitespace around operator
         self.addChunk('## START - generated method body')
-- 
2.43.0


From a772b45bc5bdaa35195ba86c54cacc97f7fbdb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:27 +0000
Subject: [PATCH 89/97] fix: extend a class by its full name below an imported
 package

'#import pkg' followed by '#extends pkg.mod.Class' dropped 'pkg.' from the name
of the base class, so that the module raised NameError.
---
 Cheetah/Compiler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 2bb0716..37a60e3 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1984,9 +1984,7 @@ class ModuleCompiler(SettingsManager, GenUtils):
                     for chunk in chunks[1:-1]:
                         if modName in self.importedVarNames():
                             needToAddImport = False
-                            finalBaseClassName = klass.replace(modName + '.',
-                                                               '')
-                            baseclasses.append(finalBaseClassName)
+                            baseclasses.append(klass)
                             break
                         else:
                             modName += '.' + chunk
-- 
2.43.0


From 59dc7a1b65238a90ca6586fb124d19410357be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:58 +0000
Subject: [PATCH 90/97] fix: know the module level imports when
 useLegacyImportMode is off

'#from mod import Class' followed by '#extends Class' imported the class from
a module Class.
---
 Cheetah/Compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 37a60e3..38d92f0 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1930,8 +1930,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
         settings = self.settings()
         if not varNames:
             return
-        if not settings.get('useLegacyImportMode'):
-            if raw_statement and getattr(self, '_methodBodyChunks'):
+        if self._methodBodyChunks and not settings.get('useLegacyImportMode'):
+            if raw_statement:
                 self.addChunk(raw_statement)
         else:
             self._importedVarNames.extend(varNames)
-- 
2.43.0


From d14cf3e8ef526776b11c8de1b3cf5d1bfe2006f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:15 +0000
Subject: [PATCH 91/97] fix: keep the end of a block's start marker

A directive at the start of the block removed the indentation with which the
marker ends.
---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 2bee943..32b246d 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2160,6 +2160,8 @@ class _HighLevelParser(_LowLevelParser):
                 startMarker = self.setting('blockMarkerStart')
                 self._compiler.addStrConst(
                     startMarker[0] + methodName + startMarker[1])
+                # keep it from the directives that follow
+                self._compiler.commitStrConst()
 
         # @@TR: fix up filtering
         self._applyExpressionFilters(self[startPos:self.pos()], 'def',
-- 
2.43.0


From b059adebea51214a83153e24271541d99b3d5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:20 +0000
Subject: [PATCH 92/97] fix: generatedClassCode() returns None where there is
 no code, as documented

---
 Cheetah/Template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 305379b..798b7ba 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1388,6 +1388,8 @@ class Template(Servlet):
         compilation took place.
         """
 
+        if self._CHEETAH_generatedModuleCode is None:
+            return None
         return self._CHEETAH_generatedModuleCode[
             self._CHEETAH_generatedModuleCode.find('\nclass '):
             self._CHEETAH_generatedModuleCode.find(
-- 
2.43.0


From 9b90e84e5552bfa289280c195ed06ceb2834f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:33 +0000
Subject: [PATCH 93/97] fix: an end directive closes the directive it names in
 full

With a directive of the application named 'format' in
endDirectiveNamesAndHandlers '#end format' was taken for '#end for'.
---
 Cheetah/Parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 32b246d..a80d179 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1903,7 +1903,9 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         pos = self.pos()
         directiveName = False
-        for key in self._endDirectiveNamesAndHandlers.keys():
+        # the longest names first: one may begin like another
+        for key in sorted(self._endDirectiveNamesAndHandlers,
+                          key=len, reverse=True):
             if self.find(key, pos) == pos:
                 directiveName = key
                 break
-- 
2.43.0


From 792b5327d63fccb0e94b2b9cb99c7b05a7a3f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:02 +0000
Subject: [PATCH 94/97] fix: the text of a one-line closure or nested method
 belongs to it

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index a80d179..06ade7a 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2190,6 +2190,7 @@ class _HighLevelParser(_LowLevelParser):
             elif directiveName == 'block':
                 self._compiler.closeBlock()
             elif directiveName == 'closure' or isNestedDef:
+                self._compiler.commitStrConst()
                 self._compiler.dedent()
 
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
-- 
2.43.0


From 9bf9441692e51004b113932e456d2a97001f9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 95/97] fix: the targets of a generator expression given to a
 function are no placeholders

---
 Cheetah/Parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 06ade7a..777eef8 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1077,6 +1077,10 @@ class _LowLevelParser(SourceReader):
                     token = self.getExpression(enclosed=True)
                 token = self.transformToken(token, beforeTokenPos)
                 addBit(token)
+                if token == 'for':
+                    # the targets of a generator expression
+                    addBit(self.getExpression(
+                        useNameMapper=False, pyTokensToBreakAt=['in']))
 
         if useNameMapper is not Unspecified:
             # @@TR: see comment above
-- 
2.43.0


From 7aea2fe030b42f36356092b5eb7e63dd9f1e86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 96/97] fix: a triple-quoted string may have any of Python's
 prefixes

---
 Cheetah/Parser.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 777eef8..8c244d9 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -12,6 +12,7 @@ import sys
 import re
 import types
 import inspect
+from itertools import product
 
 from .SourceReader import SourceReader
 from .Unspecified import Unspecified
@@ -112,22 +113,13 @@ keywords = ('and',       'del',       'for',       'is',        'raise',   # noq
 single3 = "'''"
 double3 = '"""'
 
-tripleQuotedStringStarts = ("'''", '"""',
-                            "r'''", 'r"""', "R'''", 'R"""',
-                            "u'''", 'u"""', "U'''", 'U"""',
-                            "ur'''", 'ur"""', "Ur'''", 'Ur"""',
-                            "uR'''", 'uR"""', "UR'''", 'UR"""')
-
-tripleQuotedStringPairs = {"'''": single3, '"""': double3,
-                           "r'''": single3, 'r"""': double3,
-                           "u'''": single3, 'u"""': double3,
-                           "ur'''": single3, 'ur"""': double3,
-                           "R'''": single3, 'R"""': double3,
-                           "U'''": single3, 'U"""': double3,
-                           "uR'''": single3, 'uR"""': double3,
-                           "Ur'''": single3, 'Ur"""': double3,
-                           "UR'''": single3, 'UR"""': double3,
-                           }
+tripleQuotedStringPairs = {}
+for prefix in ('', 'r', 'u', 'b', 'f', 'ur', 'br', 'rb', 'fr', 'rf'):
+    for letters in product(*[(c, c.upper()) for c in prefix]):
+        tripleQuotedStringPairs[''.join(letters) + "'''"] = single3
+        tripleQuotedStringPairs[''.join(letters) + '"""'] = double3
+
+tripleQuotedStringStarts = tuple(tripleQuotedStringPairs)
 
 closurePairs = {')': '(', ']': '[', '}': '{'}
 closurePairsRev = {'(': ')', '[': ']', '{': '}'}
-- 
2.43.0


From 930c842dddc77444baeab8167642dc4f580be049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:20 +0000
Subject: [PATCH 97/97] fix: only line endings end a line of PSP code

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 38d92f0..e6899c9 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -771,7 +771,7 @@ class MethodCompiler(GenUtils):
         elif PSP[-1] == ':':
             autoIndent = True
 
-        for line in PSP.splitlines():
+        for line in re.split(r'\r\n|\r|\n', PSP):
             self.addChunk(line)
 
         if autoIndent:
-- 
2.43.0

