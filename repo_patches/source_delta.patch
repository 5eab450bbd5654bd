From 8293a1175406a7208f6f7d093ffb5f5fcd679709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 01/30] fix: integer division of longs is exact (it went
 through floating point)

---
 titus/lib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index f1c0c2c..d2d151a 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -99,7 +99,8 @@ class FloorDivide(LibFcn):
         if y == 0:
             raise PFARuntimeException("integer division by zero", self.errcodeBase + 0, self.name, pos)
         else:
-            return int(x / float(y))
+            quotient = abs(x) // abs(y)    # exact (truncates toward zero), unlike division as floating point
+            return quotient if (x < 0) == (y < 0) else -quotient
 provide(FloorDivide())
 
 class Negative(LibFcn):
-- 
2.43.0


From d9177609aa6b526b9259113c862b0d1059e3055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 02/30] fix: an overflowing odd power of a negative number is
 -inf, not inf

---
 titus/lib/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index d2d151a..01cff38 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -192,6 +192,8 @@ def powLikeJava(x, y):
             else:
                 if (abs(x) > 1 and y < 0) or (abs(x) < 1 and y > 0):
                     return 0.0
+                elif x < 0 and y % 2 == 1:
+                    return float("-inf")
                 else:
                     return float("inf")
 
-- 
2.43.0


From a59a5571b467a5741dd1d2fd03b43950c04bd0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 03/30] fix: a set of several variables living in different
 scopes reassigns each in its own scope

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index f249227..7d30c59 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -148,7 +148,7 @@ class DynamicScope(object):
             if symbol in self.symbols:
                 self.symbols[symbol] = value
             elif self.parent is not None:
-                self.parent.set(nameExpr)
+                self.parent.set({symbol: value})
             else:
                 raise RuntimeError()
 
-- 
2.43.0


From 8fe586e5a1acf78872ab5466a18680672c53f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 04/30] fix: errors of library functions called by reference
 have no position instead of failing on a bogus one

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index 7d30c59..0e222b8 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -176,7 +176,7 @@ def callfcn(state, scope, fcn, args):
         callScope.let(args)
         return fcn(state, callScope)
     else:
-        return fcn(state, scope, pos, None, *args)
+        return fcn(state, scope, None, None, *args)
 
 def negativeIndex(length, index):
     """Helper function for interpreting negative array indexes as counting from the end of the array (just like Python).
-- 
2.43.0


From 9d2c157bcdef29edfbf788625543fe2adc82e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 05/30] fix: comparing floats orders nan above every number, as
 comparing doubles does

---
 titus/datatype.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 34f3989..a02cca9 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1051,7 +1051,6 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroLong) and isinstance(x, int) and x is not True and x is not False and isinstance(y, int) and y is not True and y is not False:
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroFloat) and isinstance(x, (int, float)) and x is not True and x is not False and isinstance(y, (int, float)) and y is not True and y is not False:
-        return (x > y) - (x < y)
         if math.isnan(x):
             if math.isnan(y):
                 return 0
-- 
2.43.0


From 56cfad8a0fae2d705bd0d9be4b954c0a3a8d0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 06/30] fix: checking input data rejects out-of-range integers,
 booleans given as numbers and undeclared enum symbols

---
 titus/datatype.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index a02cca9..2ac5d0f 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1210,10 +1210,10 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        elif not isinstance(data, int) or isinstance(data, bool):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if data < -2147483648 or data > 2147483647:
+            raise TypeError("expecting {0}, found {1} (out of range)".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroLong):
         if isinstance(data, str):
@@ -1223,10 +1223,10 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        elif not isinstance(data, int) or isinstance(data, bool):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if data < -9223372036854775808 or data > 9223372036854775807:
+            raise TypeError("expecting {0}, found {1} (out of range)".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroFloat):
         if isinstance(data, str):
@@ -1236,7 +1236,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             data = float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             data = float(data)
         elif isinstance(data, float):
             return data
@@ -1251,7 +1251,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             return float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return float(data)
         elif isinstance(data, float):
             return data
@@ -1268,6 +1268,8 @@ def checkData(data, avroType):
 
     elif isinstance(avroType, (AvroString, AvroEnum)):
         if isinstance(data, str):
+            if isinstance(avroType, AvroEnum) and data not in avroType.symbols:
+                raise titus.errors.AvroException("expecting {0}, found {1}".format(ts(avroType), data))
             return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
@@ -1321,7 +1323,7 @@ def checkData(data, avroType):
         for tpe in avroType.types:
             try:
                 newData = checkData(data, tpe)
-            except TypeError:
+            except (TypeError, titus.errors.AvroException):
                 pass
             else:
                 if tpe.name == "null":
-- 
2.43.0


From 6e42922d66492fe17f416ea6c63c1ed0a0706222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 07/30] fix: median and ntile recognise floating-point data by
 value, not by object identity of the type name

---
 titus/lib/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index d98ae0e..56d9719 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -760,7 +760,7 @@ class Median(LibFcn):
 
         if len(sa) % 2:
             return sa[half]
-        if (dataType is "float") or (dataType is "double"):
+        if dataType == "float" or dataType == "double":
             return (sa[half - 1] + sa[half])/2.0
         else:
             return sa[half - 1]
@@ -807,7 +807,7 @@ class NTile(LibFcn):
         k = (len(a) - 1.0)*p
         f = math.floor(k)
         dataType = paramTypes[-1]
-        if (dataType is "float") or (dataType is "double"):
+        if dataType == "float" or dataType == "double":
             c = math.ceil(k)
             if f == c:
                 return sa[int(k)]
-- 
2.43.0


From 33bfa295f8d38e234460d341f6b43d7fd1c4d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 08/30] fix: encoding a tagged union value uses the tagged
 member type, not the first member that happens to accept the value

---
 titus/datatype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 2ac5d0f..4ec6ecf 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1004,8 +1004,9 @@ def jsonEncoder(avroType, value, tagged=True):
         return None
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
+            tag, = list(value.keys())
             val, = list(value.values())
-            for t in avroType.types:
+            for t in sorted(avroType.types, key=lambda x: x.name != tag):
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
-- 
2.43.0


From 3b66aa7495305fb27dcf08e4c1ac642cf513bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 09/30] fix: a failing update of a shared cell or pool releases
 its lock and leaves the item unchanged

---
 titus/genpy.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 7049804..25d9c0c 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -538,10 +538,9 @@ class Cell(PersistentStorageItem):
     def update(self, state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         result = None
         if self.shared:
-            self.lock.acquire()
-            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-            self.lock.release()
+            with self.lock:
+                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value
         else:
             self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value
@@ -584,17 +583,16 @@ class Pool(PersistentStorageItem):
                 self.locks[head].acquire()
             self.locklock.release()
 
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-
-            result = self.value[head]
-            self.locks[head].release()
+            try:
+                item = self.value[head] if head in self.value else init
+                self.value[head] = update(state, scope, item, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value[head]
+            finally:
+                self.locks[head].release()
 
         else:
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            item = self.value[head] if head in self.value else init
+            self.value[head] = update(state, scope, item, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value[head]
 
         return result
-- 
2.43.0


From e83b1a3df530148ab811ed4394c4289d32e04c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 10/30] fix: begin, end and merge obey their timeouts (their
 options were ignored, and merge had no timeout at all)

---
 titus/genpy.py   | 6 ++++--
 titus/options.py | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 25d9c0c..9585c03 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -207,7 +207,7 @@ class GeneratePython(titus.pfaast.Task):
             if len(begin) > 0:
                 out.append("""
     def begin(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'begin', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata})
         if self.config.version is not None:
@@ -281,7 +281,7 @@ class GeneratePython(titus.pfaast.Task):
                 
                 out.append("""
     def end(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'end', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished})
         if self.config.version is not None:
@@ -495,6 +495,8 @@ class ExecutionState(object):
             self.timeout = options.timeout_action
         elif routine == "end":
             self.timeout = options.timeout_end
+        else:
+            self.timeout = options.timeout
 
         self.startTime = time.time()
 
diff --git a/titus/options.py b/titus/options.py
index 38030e9..29127b2 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -41,8 +41,8 @@ class EngineOptions(object):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-        self.timeout_begin = longOpt("timeout", self.timeout)
-        self.timeout_action = longOpt("timeout", self.timeout)
-        self.timeout_end = longOpt("timeout", self.timeout)
+        self.timeout_begin = longOpt("timeout.begin", self.timeout)
+        self.timeout_action = longOpt("timeout.action", self.timeout)
+        self.timeout_end = longOpt("timeout.end", self.timeout)
 
         # ...
-- 
2.43.0


From 3999cf6993f1ea531e3c2076ab42e69e613555d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 11/30] fix: a filtered try passes on errors that have no code
 (a timeout became an AttributeError)

---
 titus/genpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 9585c03..1186076 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1294,7 +1294,7 @@ def tryCatch(state, scope, exprs, filter):
     try:
         return exprs(state, scope)
     except Exception as err:
-        if filter is None or err.message in filter or err.code in filter:
+        if filter is None or getattr(err, "message", str(err)) in filter or getattr(err, "code", None) in filter:
             return None
         else:
             raise err
-- 
2.43.0


From 43c6bc148aec665bd6b47be8bb61b5c1a532b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 12/30] fix: updating a path whose last step does not exist is
 an error, as the path's other steps are (it silently did nothing)

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 1186076..09262cc 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -682,7 +682,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         head, tail = path[0], path[1:]
 
         if isinstance(obj, dict):
-            if len(tail) > 0 and head not in obj:
+            if head not in obj:
                 raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
             out = {}
             for k, v in list(obj.items()):
@@ -693,7 +693,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
             return out
 
         elif isinstance(obj, (list, tuple)):
-            if (len(tail) > 0 and head >= len(obj)) or head < 0:
+            if head >= len(obj) or head < 0:
                 raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
             out = []
             for i, x in enumerate(obj):
-- 
2.43.0


From 1cb5550eb533050726e15e9e585d331cee0ae264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 13/30] fix: extracting a path with a negative array index is
 an error, as updating it is

---
 titus/genpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 09262cc..2d2d54d 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -643,6 +643,8 @@ def get(obj, path, arrayErrCode, mapErrCode, fcnName, pos):
     while len(path) > 0:
         head, tail = path[0], path[1:]
         try:
+            if isinstance(obj, (list, tuple)) and head < 0:
+                raise IndexError
             obj = obj[head]
         except (KeyError, IndexError):
             if isinstance(obj, (list, tuple)):
-- 
2.43.0


From 226127b0f4999953e14255895206009cc71786ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 14/30] fix: decoding JSON at a numeric type rejects booleans
 and numbers out of an integer type's range (infinity escaped as an
 OverflowError)

---
 titus/datatype.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 4ec6ecf..b8a04f5 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -889,23 +889,31 @@ def jsonDecoder(avroType, value):
             return value
     elif isinstance(avroType, AvroInt):
         try:
-            return int(value)
-        except (ValueError, TypeError):
+            out = int(value)
+        except (ValueError, TypeError, OverflowError):
             pass
+        else:
+            if not isinstance(value, bool) and -2**31 <= out <= 2**31 - 1:
+                return out
     elif isinstance(avroType, AvroLong):
         try:
-            return int(value)
-        except (ValueError, TypeError):
+            out = int(value)
+        except (ValueError, TypeError, OverflowError):
             pass
+        else:
+            if not isinstance(value, bool) and -2**63 <= out <= 2**63 - 1:
+                return out
     elif isinstance(avroType, AvroFloat):
         try:
-            return float(value)
-        except (ValueError, TypeError):
+            if not isinstance(value, bool):
+                return float(value)
+        except (ValueError, TypeError, OverflowError):
             pass
     elif isinstance(avroType, AvroDouble):
         try:
-            return float(value)
-        except (ValueError, TypeError):
+            if not isinstance(value, bool):
+                return float(value)
+        except (ValueError, TypeError, OverflowError):
             pass
     elif isinstance(avroType, AvroBytes):
         if isinstance(value, str):
-- 
2.43.0


From 05d3002b5c852104390a0679cade20d63e38cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 15/30] fix: map.zipmap and map.zipmapWithKey compare the key
 sets, not the order of the keys

---
 titus/lib/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/map.py b/titus/lib/map.py
index ce02b54..f77303e 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -504,7 +504,7 @@ class ZipMap(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
@@ -523,7 +523,7 @@ class ZipMapWithKey(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
-- 
2.43.0


From 921326083c43ec4f09f855eaa687c7081f7b2664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 16/30] fix: m.exp, m.expm1, m.cosh, m.sinh and m.hypot
 overflow to infinity instead of raising OverflowError

---
 titus/lib/pfamath.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index b9e051d..7b9030a 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -146,30 +146,33 @@ class CosH(LibFcn):
     name = prefix + "cosh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27100
-    def genpy(self, paramTypes, args, pos):
-        return "math.cosh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.cosh(x)
+        try:
+            return math.cosh(x)
+        except OverflowError:
+            return float("inf")
 provide(CosH())
 
 class Exp(LibFcn):
     name = prefix + "exp"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27110
-    def genpy(self, paramTypes, args, pos):
-        return "math.exp({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x)
+        try:
+            return math.exp(x)
+        except OverflowError:
+            return float("inf")
 provide(Exp())
 
 class ExpM1(LibFcn):
     name = prefix + "expm1"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27120
-    def genpy(self, paramTypes, args, pos):
-        return "(math.exp({0}) - 1.0)".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x) - 1.0
+        try:
+            return math.exp(x) - 1.0
+        except OverflowError:
+            return float("inf")
 provide(ExpM1())
 
 class Floor(LibFcn):
@@ -193,7 +196,7 @@ class Hypot(LibFcn):
         if math.isinf(x) or math.isinf(y):
             return float("inf")
         else:
-            return math.sqrt(x**2 + y**2)
+            return math.hypot(x, y)
 provide(Hypot())
 
 class Ln(LibFcn):
@@ -322,10 +325,11 @@ class SinH(LibFcn):
     name = prefix + "sinh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27230
-    def genpy(self, paramTypes, args, pos):
-        return "math.sinh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.sinh(x)
+        try:
+            return math.sinh(x)
+        except OverflowError:
+            return float("inf") if x > 0.0 else float("-inf")
 provide(SinH())
 
 class Sqrt(LibFcn):
-- 
2.43.0


From 489f23ee6b9467e0182aeaaf1e0f31c4dcb84136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 17/30] fix: bytes and fixed values have one representation
 (input, pack and unpack used Python bytes where everything else uses strings)

---
 titus/datatype.py  |  6 +++---
 titus/genpy.py     | 14 ++++++++++----
 titus/lib/bytes.py |  2 ++
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index b8a04f5..ba2b2dc 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -25,7 +25,7 @@ import avro.schema
 
 import titus.errors
 import titus.util
-from titus.util import ts, stringToBytes
+from titus.util import ts, bytesToString
 
 ######################################################### the most general types
 
@@ -1269,9 +1269,9 @@ def checkData(data, avroType):
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
         if isinstance(data, bytes):
-            return data
+            return bytesToString(data)
         elif isinstance(data, str):
-            return stringToBytes(data)
+            return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
diff --git a/titus/genpy.py b/titus/genpy.py
index 2d2d54d..68ba312 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -38,6 +38,8 @@ import titus.reader
 import titus.signature
 import titus.util
 from titus.util import DynamicScope
+from titus.util import bytesToString
+from titus.util import stringToBytes
 import titus.version
 
 from titus.pfaast import EngineConfig
@@ -1155,7 +1157,7 @@ def pack(state, scope, exprsDeclareRes, pos):
         else:
             out.append(struct.pack(f, value))
     
-    return b"".join(out)
+    return bytesToString(b"".join(out))
 
 class MisalignedPacking(Exception):
     """Exception to raise if the packed length doesn't fit the format."""
@@ -1168,7 +1170,7 @@ def unpackOne(byte_s, scope, s, f, l):
         this, that = byte_s[:l], byte_s[l:]
         if len(this) != l:
             raise MisalignedPacking()
-        scope.let({s: this})
+        scope.let({s: bytesToString(this)})
 
     elif f == "tonull":
         try:
@@ -1178,7 +1180,7 @@ def unpackOne(byte_s, scope, s, f, l):
         else:
             this = byte_s[:nullbyte]
             that = byte_s[(nullbyte + 1):]
-            scope.let({s: this})
+            scope.let({s: bytesToString(this)})
 
     elif f == "prefixed":
         if len(byte_s) < 1:
@@ -1191,7 +1193,7 @@ def unpackOne(byte_s, scope, s, f, l):
         that = byte_s[(length + 1):]
         if len(this) != length:
             raise MisalignedPacking()
-        scope.let({s: this})
+        scope.let({s: bytesToString(this)})
 
     elif f == "x":
         this, that = byte_s[:l], byte_s[l:]
@@ -1225,6 +1227,8 @@ def unpack(state, scope, byte_s, format, thenClause):
     :return: nothing
     """
 
+    if isinstance(byte_s, str):
+        byte_s = stringToBytes(byte_s)
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
@@ -1253,6 +1257,8 @@ def unpackElse(state, scope, byte_s, format, thenClause, elseClause):
     :return: if there was no titus.genpy.MisalignedPacking exception, returns result of ``thenClause``, otherwise, returns result of ``elseClause``
     """
 
+    if isinstance(byte_s, str):
+        byte_s = stringToBytes(byte_s)
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 92799e8..af757b3 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -83,6 +83,8 @@ class Tester(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x):
         if paramTypes[0] == "bytes" or paramTypes[0] == {"type": "bytes"}:
             try:
+                if isinstance(x, str):
+                    x = stringToBytes(x)
                 codecs.decode(x, self.codec, "strict")
             except UnicodeDecodeError:
                 return False
-- 
2.43.0


From 026226f745b32e2932c66401dbc705264c9ddb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 18/30] fix: bytes.fromBase64 reports wrong padding as its
 documented error

---
 titus/lib/bytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index af757b3..f305cf1 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -253,6 +253,6 @@ class FromBase64(LibFcn):
                 raise TypeError
             out = base64.b64decode(s)
             return bytesToString(out)
-        except TypeError:
+        except (TypeError, ValueError):
             raise PFARuntimeException("invalid base64", self.errcodeBase + 0, self.name, pos)
 provide(FromBase64())
-- 
2.43.0


From 486d5150e3adcbbc9ebabbb4e7fd4c9450e972f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 19/30] fix: input checking accepted fixed values of the wrong
 size

---
 titus/datatype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index ba2b2dc..14766fa 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1268,7 +1268,9 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
-        if isinstance(data, bytes):
+        if isinstance(avroType, AvroFixed) and isinstance(data, (bytes, str)) and len(data) != avroType.size:
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        elif isinstance(data, bytes):
             return bytesToString(data)
         elif isinstance(data, str):
             return data
-- 
2.43.0


From f3e39a789e5bcfc15291642bfcccc504681e6627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:54 +0000
Subject: [PATCH 20/30] fix: input checking accepted strings and maps as
 arrays, empty strings and arrays as maps or records

---
 titus/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 14766fa..846d499 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1286,13 +1286,13 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroArray):
-        if hasattr(data, "__iter__"):
+        if hasattr(data, "__iter__") and not isinstance(data, (str, bytes, dict)):
             return [checkData(x, avroType.items) for x in data]
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
@@ -1307,7 +1307,7 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroRecord):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for field in avroType.fields:
                 try:
-- 
2.43.0


From 9a6e6cc83acf4b955dac9725d51c2db33c1c2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:52 +0000
Subject: [PATCH 21/30] fix: link functions return their limit for arguments
 whose exponential is too large, instead of failing with an OverflowError

---
 titus/lib/link.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/titus/lib/link.py b/titus/lib/link.py
index 5fb1311..2579802 100644
--- a/titus/lib/link.py
+++ b/titus/lib/link.py
@@ -67,6 +67,19 @@ class SoftMax(LibFcn):
             return [float(math.exp(val - m)/denom) for val in x]
 provide(SoftMax())
 
+def safeExp(x):
+    """The exponential function, infinity if the result is too large (where math.exp raises an OverflowError)."""
+    try:
+        return math.exp(x)
+    except OverflowError:
+        return float("inf")
+
+def softplus(x):
+    try:
+        return math.log(1.0 + math.exp(x))
+    except OverflowError:
+        return x        # the difference is far below the precision of x
+
 def unwrapForNorm(x, func):
     if isinstance(x, dict):
         xx = x.copy()
@@ -88,7 +101,7 @@ class Logit(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25010
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1./(1. + math.exp(-y)))
+        return unwrapForNorm(x, lambda y: 1./(1. + safeExp(-y)))
 provide(Logit())
 
 class Probit(LibFcn):
@@ -108,7 +121,7 @@ class CLoglog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25030
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1. - math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: 1. - math.exp(-safeExp(y)))
 provide(CLoglog())
 
 class LogLog(LibFcn):
@@ -118,7 +131,7 @@ class LogLog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25040
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: math.exp(-safeExp(y)))
 provide(LogLog())
 
 class Cauchit(LibFcn):
@@ -138,7 +151,7 @@ class Softplus(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25060
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.log(1.0 + math.exp(y)))
+        return unwrapForNorm(x, softplus)
 provide(Softplus())
 
 class ReLu(LibFcn):
-- 
2.43.0


From 745ea5f959c877c04f09476622afff53033a7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:52 +0000
Subject: [PATCH 22/30] fix: softmax failed with an OverflowError when the
 number largest in magnitude was far below the others

---
 titus/lib/link.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/titus/lib/link.py b/titus/lib/link.py
index 2579802..1002e55 100644
--- a/titus/lib/link.py
+++ b/titus/lib/link.py
@@ -48,21 +48,13 @@ class SoftMax(LibFcn):
             raise PFARuntimeException("empty input", self.errcodeBase + 0, self.name, pos)
         if paramTypes[0]["type"] == "map":
             xx = x.copy()
-            tmp = list(map(abs, list(xx.values())))
-            if list(xx.values())[tmp.index(max(tmp))] >= 0:
-                m = max(xx.values())
-            else:
-                m = min(xx.values())
+            m = max(xx.values())    # the exponentials of the differences cannot overflow
             denom = sum([math.exp(v - m) for v in list(x.values())])
             for key in list(x.keys()):
                 xx[key] = float(math.exp(xx[key] - m)/denom)
             return xx
         else:
-            tmp = list(map(abs, x))
-            if x[tmp.index(max(tmp))] >= 0:
-                m = max(x)
-            else:
-                m = min(x)
+            m = max(x)    # the exponentials of the differences cannot overflow
             denom = sum([math.exp(v - m) for v in x])
             return [float(math.exp(val - m)/denom) for val in x]
 provide(SoftMax())
-- 
2.43.0


From d11fb1e3041c32e8641f4aba2246cd8c9683bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 23/30] fix: the Euclidean metric failed with a ValueError when
 missing-value weights make the sum negative

---
 titus/lib/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/metric.py b/titus/lib/metric.py
index 71aa073..93177ac 100644
--- a/titus/lib/metric.py
+++ b/titus/lib/metric.py
@@ -99,7 +99,7 @@ class Euclidean(MetricWithMissingValues):
     def increment(self, tally, x):
         return tally + x**2
     def finalize(self, x):
-        return math.sqrt(x)
+        return math.sqrt(x) if x >= 0.0 else float("nan")
 provide(Euclidean())
 
 class SquaredEuclidean(MetricWithMissingValues):
-- 
2.43.0


From 3eb1c3883698dd81e632247bbca9ffef2f9d6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 24/30] fix: multinomial naive Bayes over maps did not
 normalize its model, unlike over arrays

---
 titus/lib/model/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/naive.py b/titus/lib/model/naive.py
index c26620f..71fe8d0 100644
--- a/titus/lib/model/naive.py
+++ b/titus/lib/model/naive.py
@@ -103,7 +103,7 @@ class Multinomial(LibFcn):
             raise PFARuntimeException("datum and classModel misaligned", self.errcodeBase + 0, self.name, pos)
         for d in datumkeys:
             p = classModel[d]/normalizing + tiny
-            ll += datum[d]*math.log(classModel[d])
+            ll += datum[d]*math.log(p)
         return ll
 
     def __call__(self, state, scope, pos, paramTypes, datum, classModel):
-- 
2.43.0


From 832caee66ad5a6cbcbfcf56b9fa956bc264b6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 25/30] fix: model.neighbor.mean failed with a
 ZeroDivisionError when the weights add up to zero

---
 titus/lib/model/neighbor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/neighbor.py b/titus/lib/model/neighbor.py
index 5a6865e..b812528 100644
--- a/titus/lib/model/neighbor.py
+++ b/titus/lib/model/neighbor.py
@@ -68,7 +68,7 @@ class Mean(LibFcn):
                 denom[i] += w
 
         for i in range(dimensions):
-            numer[i] /= denom[i]
+            numer[i] = div(numer[i], denom[i])
         return numer
 provide(Mean())
 
-- 
2.43.0


From 5274fc4ececa14f826c001c39713a32ed3abfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 26/30] fix: model.reg.updateChi2 modified its argument and
 turned its integer field into a double

---
 titus/lib/model/reg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 5e2a878..f250453 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -498,9 +498,7 @@ class UpdateChi2(LibFcn):
             return update(sum([y**2 for y in list(pull.values())]), state_)
 provide(UpdateChi2())
 def update(x, state_):
-    state_["chi2"] = float(state_["chi2"] + x)
-    state_["DOF"]  = float(state_["DOF"] + 1)
-    return state_
+    return dict(state_, chi2=float(state_["chi2"] + x), DOF=state_["DOF"] + 1)
 
 class ReducedChi2(LibFcn):
     name = prefix + "reducedChi2"
-- 
2.43.0


From cf09503ae171a7a8d124db098d205e4f5af414ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 27/30] fix: updateChi2 failed with an AttributeError when the
 pull is an int

---
 titus/lib/model/reg.py    | 2 +-
 titus/lib/stat/pfatest.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index f250453..3f59c7a 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -490,7 +490,7 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Wildcard("A"), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.updateChi2 instead"))])
     errcodeBase = 31050
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return update(pull*pull, state_)
         elif isinstance(pull, (tuple, list)):
             return update(sum([y**2 for y in pull]), state_)
diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index c96a257..efd82bb 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -181,7 +181,7 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state": P.WildRecord("A", {"chi2": P.Double(), "dof": P.Int()})}], P.Wildcard("A"))])
     errcodeBase = 38040
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return dict(state_, chi2=(state_["chi2"] + pull*pull), dof=(state_["dof"] + 1))
         elif isinstance(pull, (tuple, list)):
             return dict(state_, chi2=(state_["chi2"] + sum([y**2 for y in pull])), dof=(state_["dof"] + 1))
-- 
2.43.0


From 73978cef29c559cc3ad54a6b373c0d0f5e491705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 28/30] fix: model.reg.residual accepted arrays of unequal
 length; model.reg.pull and reducedChi2 failed with a ZeroDivisionError

---
 titus/lib/model/reg.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 3f59c7a..3506c99 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -395,11 +395,9 @@ class Residual(LibFcn):
             return result
 
         elif isinstance(observation, (tuple, list)):
-            try:
-                result = [float(o - p) for o, p in zip(observation, prediction)]
-            except:
+            if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return result
+            return [float(o - p) for o, p in zip(observation, prediction)]
 
         else:
             return float(observation - prediction)
@@ -439,10 +437,10 @@ class Pull(LibFcn):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
             if len(observation) != len(uncertainty):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return [float((o - p)/u) for o, p, u in zip(observation, prediction, uncertainty)]
+            return [float(div(o - p, u)) for o, p, u in zip(observation, prediction, uncertainty)]
 
         else:
-            return float((observation - prediction)/uncertainty)
+            return float(div(observation - prediction, uncertainty))
 
 provide(Pull())
 
@@ -505,7 +503,7 @@ class ReducedChi2(LibFcn):
     sig = Sig([{"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Double(), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.reducedChi2 instead"))
     errcodeBase = 31060
     def __call__(self, state, scope, pos, paramTypes, state_):
-        return float(state_["chi2"]/state_["DOF"])
+        return float(div(state_["chi2"], state_["DOF"]))
 provide(ReducedChi2())
 
 class Chi2Prob(LibFcn):
-- 
2.43.0


From 86b3502f4eb1a1b39b9fae88ad1277e155a5d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:54 +0000
Subject: [PATCH 29/30] fix: fillHistogram counted every number in the first
 bin of an empty growing histogram

---
 titus/lib/stat/sample.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index ad73f7a..9f96693 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -544,11 +544,7 @@ class FillHistogram(LibFcn):
                 underflow, overflow, nanflow, infflow = False, False, False, False
                 
             if not underflow and not overflow and not nanflow and not infflow:
-                currentHigh = low + binsize * len(values)
-                try:
-                    index = int(math.floor((x - low) / (currentHigh - low) * len(values)))
-                except ZeroDivisionError:
-                    index = 0
+                index = int(math.floor((x - low) / binsize))
                 if index < len(values):
                     newValues = list(values)
                     newValues[index] = newValues[index] + w
-- 
2.43.0


From 4f74854172ef83f0fa44886cfa79eb788e8c9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 30/30] fix: fillHistogram and fillHistogram2d failed with an
 IndexError just below the upper edge

---
 titus/lib/stat/sample.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index 9f96693..f70c798 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -518,7 +518,7 @@ class FillHistogram(LibFcn):
                         else:
                             index = INT_MIN_VALUE
                     else:
-                        index = int(indexFloat)
+                        index = min(int(indexFloat), numbins - 1)   # (x - low) can be rounded up to (high - low)
                 newValues = list(values)
                 newValues[index] = newValues[index] + w
             else:
@@ -670,11 +670,11 @@ class FillHistogram2d(LibFcn):
 
         if not underunderflow and not undermidflow and not underoverflow and not midunderflow and not midoverflow and not overunderflow and not overmidflow and not overoverflow and not nanflow and not infflow:
             try:
-                xindex = int(math.floor((x - xlow) / (xhigh - xlow) * xnumbins))
+                xindex = min(int(math.floor((x - xlow) / (xhigh - xlow) * xnumbins)), xnumbins - 1)
             except ZeroDivisionError:
                 xindex = 0
             try:
-                yindex = int(math.floor((y - ylow) / (yhigh - ylow) * ynumbins))
+                yindex = min(int(math.floor((y - ylow) / (yhigh - ylow) * ynumbins)), ynumbins - 1)
             except ZeroDivisionError:
                 yindex = 0
             newValues = [list(x) for x in values]
-- 
2.43.0

