From 3d804968b44cdaf7e94d82eaf46cc3f2fe37e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/73] fix: ScopeDict should match whole names only

app.op['get'] returned an operation whose operationId is 'forget'.
---
 pyswagger/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 485b245..d109b1f 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -74,7 +74,8 @@ class ScopeDict(dict):
         except KeyError as e:
             ret = []
             for ik in self.keys():
-                if ik.endswith(k):
+                # match whole names only, 'get' should not match 'forget'
+                if ik.endswith(self.__sep + k):
                     ret.append(ik)
             if len(ret) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
-- 
2.43.0


From 8a105ddae66d09daad1f2f40c98cf49e18f6d7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 02/73] fix: an operation should be accessible via each one of
 its tags

As documented in App.op, only the first tag was registered.
---
 pyswagger/scanner/type_reducer.py | 13 +++++++------
 pyswagger/utils.py                |  3 ++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyswagger/scanner/type_reducer.py b/pyswagger/scanner/type_reducer.py
index 9f07c5c..45ac3a7 100644
--- a/pyswagger/scanner/type_reducer.py
+++ b/pyswagger/scanner/type_reducer.py
@@ -17,7 +17,6 @@ class TypeReduce(object):
 
     @Disp.register([Operation])
     def _op(self, path, obj, _):
-        scope = obj.tags[0] if obj.tags and len(obj.tags) > 0 else None
         name = obj.operationId if obj.operationId else None
 
         # in swagger 2.0, both 'operationId' and 'tags' are optional.
@@ -26,10 +25,12 @@ class TypeReduce(object):
         if not name:
             return
 
-        new_scope = scope_compose(scope, name, sep=self.__sep)
-        if new_scope:
-            if new_scope in self.op.keys():
-                raise SchemaError('duplicated key found: ' + new_scope)
+        # accessible via each one of its tags
+        for scope in (obj.tags or [None]):
+            new_scope = scope_compose(scope, name, sep=self.__sep)
+            if new_scope:
+                if self.op.get(new_scope, obj) is not obj:
+                    raise SchemaError('duplicated key found: ' + new_scope)
 
-            self.op[new_scope] = obj
+                self.op[new_scope] = obj
 
diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index d109b1f..91a25e4 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -77,7 +77,8 @@ class ScopeDict(dict):
                 # match whole names only, 'get' should not match 'forget'
                 if ik.endswith(self.__sep + k):
                     ret.append(ik)
-            if len(ret) == 1:
+            # one object might be registered under more than one scope
+            if len(ret) == 1 or len(set(id(super(ScopeDict, self).__getitem__(ik)) for ik in ret)) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
             elif len(ret) > 1:
                 # special case for the last token:
-- 
2.43.0


From 8ff38b29b1e65b344ff6299a3145726c6b30fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 03/73] fix: resolve relative $ref against root-level documents
 and absolute paths

'User.json' in http://h/swagger.json became http://h//User.json, and
'/User.json' in http://h/a/swagger.json became http://h/a//User.json.
---
 pyswagger/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 91a25e4..de925a2 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -389,7 +389,9 @@ def normalize_jr(jr, url=None):
         if p.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path), path]),)+p[3:])
+            if not path.startswith('/'):
+                path = '/'.join([os.path.dirname(p.path).rstrip('/'), path])
+            path = six.moves.urllib.parse.urlunparse(p[:2]+(path,)+p[3:])
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From c88857b1c5955548a9da63acde34610f472c643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 04/73] fix: App.resolve should compare whole tokens when
 looking into cached objects

'#/definitions/UserList' was resolved to '#/definitions/User' when the
latter one is cached.
---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1860d32..503cb2a 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -399,7 +399,7 @@ class App(object):
                 obj = o.resolve(utils.jp_split(jp)[1:])
             elif isinstance(o, dict):
                 for k, v in six.iteritems(o):
-                    if jp.startswith(k):
+                    if jp == k or jp.startswith(k + '/'):
                         obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
                         break
             else:
-- 
2.43.0


From c898171f2f65f8d595ee81717b7fc0bffdde50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 05/73] fix: App.resolve should not depend on what was resolved
 before

When a whole external document was already cached, references to places
in it which are not part of the parsed object (ex. '#/definitions/A' in a
document that is a Schema Object) failed, though they work when resolved
first.
---
 pyswagger/core.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 503cb2a..652b1a2 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -4,7 +4,6 @@ from .primitives import Primitive, MimeCodec
 from .spec.v1_2.parser import ResourceListContext
 from .spec.v2_0.parser import SwaggerContext
 from .spec.v2_0.objects import Operation
-from .spec.base import BaseObj
 from .scan import Scanner
 from .scanner import TypeReduce, CycleDetector
 from .scanner.v1_2 import Upgrade
@@ -54,8 +53,7 @@ class App(object):
         self.__schemes = []
         self.__url=url
 
-        # a map from json-reference to
-        # - spec.BaseObj
+        # a map from url to
         # - a map from json-pointer to spec.BaseObj
         self.__objs = {}
 
@@ -216,15 +214,7 @@ class App(object):
         url, jp = utils.jr_split(jref)
         s.scan(root=obj, route=[NormalizeRef(url)])
         # cache this object
-        if url not in self.__objs:
-            if jp == '#':
-                self.__objs[url] = obj
-            else:
-                self.__objs[url] = {jp: obj}
-        else:
-            if not isinstance(self.__objs[url], dict):
-                raise Exception('it should be able to resolve with BaseObj')
-            self.__objs[url].update({jp: obj})
+        self.__objs.setdefault(url, {})[jp] = obj
 
         # pre resolve Schema Object
         # note: make sure this object is cached before using 'Resolve' scanner
@@ -393,17 +383,15 @@ class App(object):
         # check cacahed object against json reference by
         # comparing url first, and find those object prefixed with
         # the JSON pointer.
-        o = self.__objs.get(url, None)
-        if o:
-            if isinstance(o, BaseObj):
-                obj = o.resolve(utils.jp_split(jp)[1:])
-            elif isinstance(o, dict):
-                for k, v in six.iteritems(o):
-                    if jp == k or jp.startswith(k + '/'):
-                        obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
-                        break
-            else:
-                raise Exception('Unknown Cached Object: {0}'.format(str(type(o))))
+        for k, v in six.iteritems(self.__objs.get(url, {})):
+            if jp == k or jp.startswith(k + '/'):
+                try:
+                    obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                    break
+                except (AttributeError, LookupError, ValueError):
+                    # not part of this object, ex. 'definitions' in a document
+                    # that is a Schema Object, load it from the document.
+                    pass
 
         # this object is not found in cache
         if obj == None:
-- 
2.43.0


From 74317e00a1f52a787f24775f141626cb4d765415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:25 +0000
Subject: [PATCH 06/73] fix: Resolver.resolve should not accept negative or
 malformed array indices

---
 pyswagger/resolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 9597d9e..6ed4090 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -67,6 +67,8 @@ class Resolver(object):
             while len(ts) > 0:
                 t = ts.pop(0)
                 if isinstance(obj, list):
+                    if not t.isdigit():
+                        raise ValueError('invalid index of array: {0}'.format(t))
                     obj = obj[int(t)]
                 elif isinstance(obj, dict):
                     obj = obj[t]
-- 
2.43.0


From be8b9b9b9189916856ea704c2c158e27370ac12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 07/73] fix: App.resolve should fail when nothing declared is
 designated

---
 pyswagger/core.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 652b1a2..1e895e0 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import
 from .resolve import Resolver
 from .primitives import Primitive, MimeCodec
+from .spec.base import BaseObj
 from .spec.v1_2.parser import ResourceListContext
 from .spec.v2_0.parser import SwaggerContext
 from .spec.v2_0.objects import Operation
@@ -361,6 +362,31 @@ class App(object):
     """
     _create_ = create
 
+    @staticmethod
+    def _lookup(obj, ts):
+        """ locate what a list of tokens designates under an object, and
+        fail when it designates nothing that is declared in the document,
+        ex. internal attributes, negative indices or children of a leaf.
+
+        :param obj: the object to start with
+        :param list ts: list of tokens
+        """
+        for t in ts:
+            if isinstance(obj, BaseObj):
+                if t not in obj._field_names_:
+                    raise AttributeError('{0} is not in {1}'.format(t, obj.__class__.__name__))
+                obj = getattr(obj, t)
+            elif isinstance(obj, list):
+                if not t.isdigit():
+                    raise ValueError('invalid index of array: {0}'.format(t))
+                obj = obj[int(t)]
+            elif isinstance(obj, dict):
+                obj = obj[t]
+            else:
+                raise ValueError('nothing to resolve under {0}: {1}'.format(type(obj).__name__, t))
+
+        return obj
+
     def resolve(self, jref, parser=None):
         """ JSON reference resolver
 
@@ -386,7 +412,7 @@ class App(object):
         for k, v in six.iteritems(self.__objs.get(url, {})):
             if jp == k or jp.startswith(k + '/'):
                 try:
-                    obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                    obj = self._lookup(v, utils.jp_split(jp[len(k):])[1:])
                     break
                 except (AttributeError, LookupError, ValueError):
                     # not part of this object, ex. 'definitions' in a document
@@ -404,7 +430,7 @@ class App(object):
                 if not jp.startswith('#'):
                     raise ValueError('Invalid Path, root element should be \'#\', but [{0}]'.format(jref))
 
-                obj = self.root.resolve(utils.jp_split(jp)[1:]) # heading element is #, mapping to self.root
+                obj = self._lookup(self.root, utils.jp_split(jp)[1:]) # heading element is #, mapping to self.root
 
         if obj == None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
-- 
2.43.0


From 90dc1816eb11a709c1efe843ffcad97235ea47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 08/73] fix: an absent value should take the default of the
 referenced schema

---
 pyswagger/primitives/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index edac8cd..c4d2622 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -156,11 +156,11 @@ class Primitive(object):
 
         :return: the created primitive
         """
+        obj = deref(obj)
         val = obj.default if val == None else val
         if val == None:
             return None
 
-        obj = deref(obj)
         ctx = {} if ctx == None else ctx
         if 'name' not in ctx and hasattr(obj, 'name'):
             ctx['name'] = obj.name
-- 
2.43.0


From 4b5e4e051ab125ff5fae3a3de23b1634cc45e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 09/73] fix: apply every member of allOf, nested ones included,
 to falsy and scalar values, too

---
 pyswagger/primitives/__init__.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index c4d2622..8b57466 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 from ..utils import deref, CycleGuard
+from ..errs import CycleDetectionError
 from ._int import create_int, validate_int
 from ._str import create_str, validate_str, validate_email_
 from ._bool import create_bool
@@ -164,7 +165,9 @@ class Primitive(object):
         ctx = {} if ctx == None else ctx
         if 'name' not in ctx and hasattr(obj, 'name'):
             ctx['name'] = obj.name
-        if 'guard' not in ctx:
+        # the outermost call, not the one for members of allOf
+        is_root = 'guard' not in ctx
+        if is_root:
             ctx['guard'] = CycleGuard()
         if 'addp_schema' not in ctx:
             # Schema Object of additionalProperties
@@ -195,7 +198,7 @@ class Primitive(object):
             if _2nd:
                 val = _2nd(obj, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
-        elif len(obj.properties) or obj.additionalProperties:
+        elif len(obj.properties) or isinstance(val, dict):
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
@@ -203,7 +206,10 @@ class Primitive(object):
             # it's meanless to handle allOf for these types.
             return ret
 
-        def _apply(o, r, v, c):
+        def _apply(o, r, v, c, path):
+            if o in path:
+                raise CycleDetectionError('Cycle detected in allOf: {0}'.format(getattr(o, '$ref', None)))
+
             if hasattr(ret, 'apply_with'):
                 v = r.apply_with(o, v, c)
             else:
@@ -214,6 +220,10 @@ class Primitive(object):
                     _2nd(o, r, v, c)
                     # update it back to context
                     c['2nd_pass'] = _2nd
+
+            # members might be composed by allOf, too.
+            for a in getattr(o, 'allOf', None) or []:
+                v = _apply(deref(a), r, v, c, path + [o])
             return v
 
         # handle allOf for Schema Object
@@ -222,20 +232,22 @@ class Primitive(object):
             not_applied = []
             for a in allOf:
                 a = deref(a)
-                if not ret:
+                if ret is None:
                     # try to find right type for this primitive.
                     ret = self.produce(a, val, ctx)
-                    is_member = hasattr(ret, 'apply_with')
                 else:
-                    val = _apply(a, ret, val, ctx)
+                    val = _apply(a, ret, val, ctx, [obj])
 
-                if not ret:
+                if ret is None:
                     # if we still can't determine the type,
                     # keep this Schema object for later use.
                     not_applied.append(a)
-            if ret:
+            if ret is not None:
                 for a in not_applied:
-                    val = _apply(a, ret, val, ctx)
+                    val = _apply(a, ret, val, ctx, [obj])
+
+        if ret is None and is_root:
+            raise ValueError('Can\'t resolve type for value:(' + str(val) + ')')
 
         if ret != None and hasattr(ret, 'cleanup'):
             val = ret.cleanup(val, ctx)
-- 
2.43.0


From 70fb18a9d933bdf55b5a0463ab4628cb85745762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 10/73] fix: check multipleOf of integers

---
 pyswagger/primitives/_int.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/primitives/_int.py b/pyswagger/primitives/_int.py
index a4a9eba..901b26a 100644
--- a/pyswagger/primitives/_int.py
+++ b/pyswagger/primitives/_int.py
@@ -1,10 +1,13 @@
 from __future__ import absolute_import
+from ..errs import ValidationError
 from .comm import min_max
 
 
 def validate_int(obj, ret, val, ctx):
     min_max(obj, ret, False)
     min_max(obj, ret, True)
+    if obj.multipleOf and ret % obj.multipleOf != 0:
+        raise ValidationError('{0} should be multiple of {1}'.format(val, obj.multipleOf))
 
     return val
  
-- 
2.43.0


From 7cb4d0927f9f9cb860143762bb1659c051d08a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 11/73] fix: a fraction is not an integer

---
 pyswagger/primitives/_int.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/_int.py b/pyswagger/primitives/_int.py
index 901b26a..a96f0de 100644
--- a/pyswagger/primitives/_int.py
+++ b/pyswagger/primitives/_int.py
@@ -13,6 +13,8 @@ def validate_int(obj, ret, val, ctx):
  
 def create_int(obj, v, ctx=None):
     r = int(v)
+    if isinstance(v, float) and r != v:
+        raise ValueError('not an integer: {0}'.format(v))
     validate_int(obj, r, v, ctx)
     return r
 
-- 
2.43.0


From f91b39655d65422b5fc7245b2a45fe1e5ec37b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 12/73] fix: zero is a valid maxLength and maxItems

---
 pyswagger/primitives/_array.py | 2 +-
 pyswagger/primitives/_str.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index e79bb73..68d7af5 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -51,7 +51,7 @@ class Array(list):
         # init array as list
         if obj.minItems and len(self) < obj.minItems:
             raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems and len(self) > obj.maxItems:
+        if obj.maxItems is not None and len(self) > obj.maxItems:
             raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
 
         return val
diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index a60b51b..1385497 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -7,7 +7,7 @@ from validate_email import validate_email
 def validate_str(obj, ret, val, ctx):
     if obj.enum and ret not in obj.enum:
         raise ValidationError('{0} is not a valid enum for {1}'.format(ret, str(obj.enum)))
-    if obj.maxLength and len(ret) > obj.maxLength:
+    if obj.maxLength is not None and len(ret) > obj.maxLength:
         raise ValidationError('[{0}] is longer than {1} characters'.format(ret, str(obj.maxLength)))
     if obj.minLength and len(ret) < obj.minLength:
         raise ValidationError('[{0}] is shorter than {1} characters'.format(ret, str(obj.minLength)))
-- 
2.43.0


From 43844099a201d74f06cbf9b097df2897ffa5462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 13/73] fix: check lengths and enum of emails given by allOf

---
 pyswagger/primitives/_str.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index 1385497..63ba9b8 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -24,6 +24,7 @@ def create_str(obj, v, ctx=None):
     return r
 
 def validate_email_(obj, ret, val, ctx):
+    validate_str(obj, ret, val, ctx)
     if not validate_email(ret):
         raise ValidationError('{0} is not a valid email for {1}'.format(ret, obj))
 
-- 
2.43.0


From 11626aa86cdb86ae0a500872e9727e272d18e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 14/73] fix: the text 'false' is not a true boolean

---
 pyswagger/primitives/_bool.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyswagger/primitives/_bool.py b/pyswagger/primitives/_bool.py
index 3ce12eb..9f403fb 100644
--- a/pyswagger/primitives/_bool.py
+++ b/pyswagger/primitives/_bool.py
@@ -1,7 +1,13 @@
 from __future__ import absolute_import
+import six
 
 
 def create_bool(_, v, ctx=None):
+    if isinstance(v, six.string_types):
+        # text, ex. from headers
+        if v.lower() not in ('true', 'false'):
+            raise ValueError('not a boolean: {0}'.format(v))
+        return v.lower() == 'true'
     return bool(v)
 
 
-- 
2.43.0


From e35299ee73e837a831110a8fb7db52e4ecff9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 15/73] fix: keep the order of unique items given in a tuple

---
 pyswagger/primitives/_array.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 68d7af5..ce1a141 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -33,16 +33,13 @@ class Array(list):
 
         # remove duplication when uniqueItems == True
         if obj.uniqueItems:
-            if isinstance(val, (list, dict)):
-                seen = []
-                for e in val:
-                    if e in seen:
-                        continue
-                    seen.append(e)
-                val = seen
-            else:
-                # assume the type is hashable
-                val = set(val)
+            # keep the order, and not every element is hashable
+            seen = []
+            for e in val:
+                if e in seen:
+                    continue
+                seen.append(e)
+            val = seen
 
         if obj.items and len(val):
             self.extend(map(functools.partial(ctx['factory'].produce, obj.items), val))
-- 
2.43.0


From 7a5b38b3947d3d1b8da74737607456f726dacd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 16/73] fix: keep leading empty elements in the string form of
 arrays

---
 pyswagger/primitives/_array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index ce1a141..4047b95 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -61,10 +61,7 @@ class Array(list):
         :rtype: str
         """
         def _conv(p):
-            s = ''
-            for v in self:
-                s = ''.join([s, p if s else '', str(v)])
-            return s
+            return p.join(str(v) for v in self)
 
         if self.__collection_format == 'csv':
             return _conv(',')
-- 
2.43.0


From eac3cc8517f42f984941a48058d3735d86bb2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:11 +0000
Subject: [PATCH 17/73] fix: a required property might be declared by another
 member of allOf

---
 pyswagger/primitives/_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 087df19..cb996a0 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -44,7 +44,9 @@ class Model(dict):
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-        not_found = set(obj.required) - set(six.iterkeys(self))
+        # the ones in 'val' might be declared by other members of allOf,
+        # or be additional properties.
+        not_found = set(obj.required) - set(six.iterkeys(self)) - set(six.iterkeys(val))
         if len(not_found):
             raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
 
-- 
2.43.0


From 5b9063f22a10ac5e03201bbd2b6cd667a412f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:11 +0000
Subject: [PATCH 18/73] fix: read-only properties of nested models should not
 be set when writing

---
 pyswagger/primitives/_array.py | 3 +--
 pyswagger/primitives/_model.py | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 4047b95..fc5782f 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -1,6 +1,5 @@
 from __future__ import absolute_import
 from ..errs import ValidationError, SchemaError
-import functools
 import six
 
 
@@ -42,7 +41,7 @@ class Array(list):
             val = seen
 
         if obj.items and len(val):
-            self.extend(map(functools.partial(ctx['factory'].produce, obj.items), val))
+            self.extend([ctx['factory'].produce(obj.items, v, ctx=dict(read=ctx['read'])) for v in val])
             val = []
 
         # init array as list
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index cb996a0..f3d5497 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -26,7 +26,7 @@ class Model(dict):
                 if pobj.readOnly == True and ctx['read'] == False:
                     raise Exception('read-only property is set in write context.')
 
-                self[k] = ctx['factory'].produce(pobj, v)
+                self[k] = ctx['factory'].produce(pobj, v, ctx=dict(read=ctx['read']))
 
             # TODO: patternProperties here
             # TODO: fix bug, everything would not go into additionalProperties, instead of recursive
@@ -71,7 +71,7 @@ class Model(dict):
         elif ctx['addp_schema'] != None:
             obj = ctx['addp_schema']
             for k, v in six.iteritems(val):
-                self[k] = ctx['factory'].produce(obj.additionalProperties, v)
+                self[k] = ctx['factory'].produce(obj.additionalProperties, v, ctx=dict(read=ctx['read']))
             ctx['addp_schema'] = None
 
         return {}
-- 
2.43.0


From 845d3d48d8fa04ecc1fdb98d514e0b8e2af29904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:11 +0000
Subject: [PATCH 19/73] fix: an absent property should take the default of the
 referenced schema

---
 pyswagger/primitives/_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index f3d5497..47043e7 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -1,4 +1,5 @@
 from __future__ import absolute_import
+from ..utils import deref
 import six
 
 class Model(dict):
@@ -40,7 +41,7 @@ class Model(dict):
 
         other_prop = in_obj - in_self
         for k in other_prop:
-            p = obj.properties[k]
+            p = deref(obj.properties[k])
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-- 
2.43.0


From 208e091865271b634addd8fb5332d87c2342e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 20/73] fix: a date is the UTC date of its timestamp, without
 time

---
 pyswagger/primitives/_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index 31063aa..1ff1441 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -29,7 +29,10 @@ class Date(Time):
         """
         self.v = None
         if isinstance(v, float):
-            self.v = datetime.date.fromtimestamp(v)
+            self.v = datetime.datetime.utcfromtimestamp(v).date()
+        elif isinstance(v, datetime.datetime):
+            # datetime is a subclass of date
+            self.v = v.date()
         elif isinstance(v, datetime.date):
             self.v = v
         elif isinstance(v, six.string_types):
-- 
2.43.0


From 779e7bce798c2161dce57f1eb1180dcefdeeb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 21/73] fix: reject text that only starts like an iso8601 date

---
 pyswagger/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index de925a2..475c3ba 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -131,10 +131,11 @@ class FixedTZ(datetime.tzinfo):
 _iso8601_fmt = re.compile(''.join([
     '(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})', # YYYY-MM-DD
     'T', # T
-    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6}))?)?', # hh:mm:ss.ms
-    '(?P<tz>Z|[+-]\d{2}:\d{2})?' # Z or +/-hh:mm
+    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6})\d*)?)?', # hh:mm:ss.ms
+    '(?P<tz>Z|[+-]\d{2}:\d{2})?', # Z or +/-hh:mm
+    '\Z'
 ]))
-_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})') # YYYY-MM-DD
+_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z') # YYYY-MM-DD
 
 def from_iso8601(s):
     """ convert iso8601 string to datetime object.
-- 
2.43.0


From 9a0379f1925ba8cc2d3fd53b13d3a9f04e5fcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 22/73] fix: check the bounds of a schema typed by its allOf

---
 pyswagger/primitives/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 8b57466..819ebf3 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -206,10 +206,7 @@ class Primitive(object):
             # it's meanless to handle allOf for these types.
             return ret
 
-        def _apply(o, r, v, c, path):
-            if o in path:
-                raise CycleDetectionError('Cycle detected in allOf: {0}'.format(getattr(o, '$ref', None)))
-
+        def _apply_one(o, r, v, c):
             if hasattr(ret, 'apply_with'):
                 v = r.apply_with(o, v, c)
             else:
@@ -220,7 +217,13 @@ class Primitive(object):
                     _2nd(o, r, v, c)
                     # update it back to context
                     c['2nd_pass'] = _2nd
+            return v
+
+        def _apply(o, r, v, c, path):
+            if o in path:
+                raise CycleDetectionError('Cycle detected in allOf: {0}'.format(getattr(o, '$ref', None)))
 
+            v = _apply_one(o, r, v, c)
             # members might be composed by allOf, too.
             for a in getattr(o, 'allOf', None) or []:
                 v = _apply(deref(a), r, v, c, path + [o])
@@ -229,7 +232,7 @@ class Primitive(object):
         # handle allOf for Schema Object
         allOf = getattr(obj, 'allOf', None)
         if allOf:
-            not_applied = []
+            not_applied, typed = [], ret is not None
             for a in allOf:
                 a = deref(a)
                 if ret is None:
@@ -245,6 +248,8 @@ class Primitive(object):
             if ret is not None:
                 for a in not_applied:
                     val = _apply(a, ret, val, ctx, [obj])
+                if not typed:
+                    val = _apply_one(obj, ret, val, ctx)
 
         if ret is None and is_root:
             raise ValueError('Can\'t resolve type for value:(' + str(val) + ')')
-- 
2.43.0


From 1d8dab3b45a7b152053ad8e1d6471416eba2c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 23/73] fix: convert additional properties by their schema when
 a member of allOf allows any

---
 pyswagger/primitives/_model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 47043e7..5b3422f 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -65,15 +65,17 @@ class Model(dict):
     def cleanup(self, val, ctx):
         """
         """
-        if ctx['addp'] == True:
-            for k, v in six.iteritems(val):
-                self[k] = v
-            ctx['addp'] = False
-        elif ctx['addp_schema'] != None:
+        # a member of allOf allowing anything doesn't lift the schema
+        # another one declares for additional properties.
+        if ctx['addp_schema'] != None:
             obj = ctx['addp_schema']
             for k, v in six.iteritems(val):
                 self[k] = ctx['factory'].produce(obj.additionalProperties, v, ctx=dict(read=ctx['read']))
             ctx['addp_schema'] = None
+        elif ctx['addp'] == True:
+            for k, v in six.iteritems(val):
+                self[k] = v
+        ctx['addp'] = False
 
         return {}
 
-- 
2.43.0


From 1a5e4372bd837586ec676e675341a2897ecfe107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:27 +0000
Subject: [PATCH 24/73] fix: comparing a model with something else should not
 raise

---
 pyswagger/primitives/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 5b3422f..8b5e01b 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -86,7 +86,7 @@ class Model(dict):
         :param other: another model
         :type other: primitives.Model or dict
         """
-        if other == None:
+        if not isinstance(other, dict):
             return False
 
         for k, v in six.iteritems(self):
-- 
2.43.0


From 7fddf512c932a9e8b8de757d919b7fb715362ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 25/73] fix: reject time offsets that do not exist

---
 pyswagger/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 475c3ba..d1a126a 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -193,6 +193,8 @@ def from_iso8601(s):
             negtive = -1 if tz_s[0] == '-' else 1
             hh = int(tz_s[1:3])
             mm = int(tz_s[4:6]) if len(tz_s) > 5 else 0
+            if hh > 23 or mm > 59:
+                raise ValueError('invalid offset: [{0}]'.format(s))
 
         tz = FixedTZ(h=hh*negtive, m=mm*negtive)
 
-- 
2.43.0


From d3e4225f54f1a54f286fb65061a8d58609c225d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 26/73] fix: take defaults and examples of allOf members as a
 whole when aggregating

---
 pyswagger/scanner/v2_0/aggt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/aggt.py b/pyswagger/scanner/v2_0/aggt.py
index a48a385..ae2f09d 100644
--- a/pyswagger/scanner/v2_0/aggt.py
+++ b/pyswagger/scanner/v2_0/aggt.py
@@ -38,7 +38,11 @@ def _compose(obj, guard=None):
         except CycleDetectionError:
             continue
         o = o.final if o.final else o
-        final.merge(o, SchemaContext, exclude=['$ref', 'allOf'])
+        # values are taken as a whole, there is no way to combine two of them
+        final.merge(o, SchemaContext, exclude=['$ref', 'allOf', 'default', 'example'])
+        for n in ('default', 'example'):
+            if getattr(final, n) is None and getattr(o, n) is not None:
+                final.update_field(n, getattr(o, n))
         for n, p in six.iteritems(o.properties):
             if n in obj.properties:
                 continue
-- 
2.43.0


From e8df9e27b3cb37e6cc33539bcb2c8c95393b44ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 27/73] fix: encode a space in a path parameter as %20, '+' is
 a literal there

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 75569c2..749c39e 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -195,7 +195,7 @@ class Request(object):
         # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
-            path_params[k] = six.moves.urllib.parse.quote_plus(v)
+            path_params[k] = six.moves.urllib.parse.quote(v, safe="")
 
         self.__path = self.__path.format(**path_params)
 
-- 
2.43.0


From 5811d1d4556fe04098a4dbf91c4882c38687097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 28/73] fix: Request.prepare should not consume the list of
 schemes it is given

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 749c39e..9839720 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -182,7 +182,7 @@ class Request(object):
 
         if isinstance(scheme, list):
             if self.__scheme is None:
-                scheme = scheme.pop()
+                scheme = scheme[-1]
             else:
                 if self.__scheme in scheme:
                     scheme = self.__scheme
-- 
2.43.0


From 9095483b5dcc5954466fcc42b2b39c5f509d289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 29/73] fix: clients should not modify options and headers
 given by the caller

---
 pyswagger/contrib/client/flask.py    | 3 ++-
 pyswagger/contrib/client/requests.py | 3 ++-
 pyswagger/contrib/client/tornado.py  | 3 ++-
 pyswagger/contrib/client/webapp2.py  | 3 ++-
 pyswagger/core.py                    | 4 ++--
 5 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 24cee92..56b53f2 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -28,7 +28,8 @@ class FlaskTestClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        # options are popped when used, the one from the caller might be reused
+        opt = dict(opt or {})
         req, resp = super(FlaskTestClient, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
diff --git a/pyswagger/contrib/client/requests.py b/pyswagger/contrib/client/requests.py
index a7bce1d..fba11ee 100644
--- a/pyswagger/contrib/client/requests.py
+++ b/pyswagger/contrib/client/requests.py
@@ -32,7 +32,8 @@ class Client(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        # options are popped when used, the one from the caller might be reused
+        opt = dict(opt or {})
         req, resp = super(Client, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index 4acac00..f6d1397 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -28,7 +28,8 @@ class TornadoClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        # options are popped when used, the one from the caller might be reused
+        opt = dict(opt or {})
         req, resp = super(TornadoClient, self).request((req, resp), opt)
 
         req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
diff --git a/pyswagger/contrib/client/webapp2.py b/pyswagger/contrib/client/webapp2.py
index c733542..26fac35 100644
--- a/pyswagger/contrib/client/webapp2.py
+++ b/pyswagger/contrib/client/webapp2.py
@@ -40,7 +40,8 @@ class Webapp2TestClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        # options are popped when used, the one from the caller might be reused
+        opt = dict(opt or {})
         req, resp = super(Webapp2TestClient, self).request((req, resp), opt)
 
         req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1e895e0..9835e6f 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -591,10 +591,10 @@ class BaseClient(object):
             return list(req.header.items()) if not as_dict else req.header
 
         opt = opt or {}
-        join_headers = opt.pop(BaseClient.join_headers, None)
+        join_headers = opt.get(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
-            headers = dict(headers) if isinstance(headers, list) else headers
+            headers = dict(headers)
             headers.update(req.header)
             return headers
 
-- 
2.43.0


From 20dc1fa61097a55f0558639f7f60093907b44c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 30/73] fix: credentials applied to a request should not
 survive reset

---
 pyswagger/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 9839720..89d497e 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -31,6 +31,8 @@ class Request(object):
 
         self.__op = op
         self.__p = params
+        # credentials are applied to these ones, keep the original for reset
+        self.__origin = (dict(params['header']), list(params['query']))
         self.__url = self.__op.url
         self.__path = self.__op.path
         self.__header = CaseInsensitiveDict()
@@ -44,6 +46,8 @@ class Request(object):
         self.__path = self.__op.path
         self.__header = CaseInsensitiveDict()
         self.__data = None
+        self.__p['header'] = dict(self.__origin[0])
+        self.__p['query'] = list(self.__origin[1])
 
     def consume(self, consume):
         self.__consume = consume
-- 
2.43.0


From 1fbeafea712ebae049e634b7df66394a92e6f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:08 +0000
Subject: [PATCH 31/73] fix: TornadoClient should be able to send a POST
 without body, or a DELETE with one

---
 pyswagger/contrib/client/tornado.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index f6d1397..45ce6ce 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -46,7 +46,9 @@ class TornadoClient(BaseClient):
             url=url,
             method=req.method.upper(),
             headers=tornado_headers,
-            body=req.data
+            body=req.data,
+            # methods like POST without body, or DELETE with body
+            allow_nonstandard_methods=True
             )
         rs = yield self.__client.fetch(rq)
 
-- 
2.43.0


From fc3987f501f38a8d67cb41bbb76e30b323d59643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 32/73] fix: find declared headers of responses ignoring case

---
 pyswagger/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 89d497e..7510cde 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -367,8 +367,11 @@ class Response(object):
         self.__url = self.__op.url
 
     def _convert_header(self, resp, k, v):
-        if resp and resp.headers and k in resp.headers:
-            v = resp.headers[k]._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+        # names of headers are case insensitive
+        for name, h in six.iteritems((resp and resp.headers) or {}):
+            if name.lower() == k.lower():
+                v = h._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+                break
 
         if k in self.__header:
             self.__header[k].append(v)
-- 
2.43.0


From a73311506cddf61734726e99d7e2fa33820c4a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:38 +0000
Subject: [PATCH 33/73] fix: FlaskTestClient should send every form field, the
 content of files and their types

---
 pyswagger/contrib/client/flask.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 56b53f2..31b8996 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -42,23 +42,17 @@ class FlaskTestClient(BaseClient):
         if req.files:
             data = {}
             # form
-            data.update(req._p['formData'])
+            for k, v in req._p['formData']:
+                data.setdefault(k, []).append(v)
             # file
             for k, v in six.iteritems(req.files):
-                if isinstance(v, list):
-                    data[k] = []
-                    for vv in v:
-                        data[k].append(FileStorage(
-                            name=k,
-                            filename=vv.filename,
-                            stream=vv.data
-                        ))
-                else:
-                    data[k] = FileStorage(
+                for vv in (v if isinstance(v, list) else [v]):
+                    data.setdefault(k, []).append(FileStorage(
                         name=k,
-                        filename=v.filename,
-                        stream=v.data
-                    )
+                        filename=vv.filename,
+                        stream=vv.data or open(vv.filename, 'rb'),
+                        content_type=vv.header.get('Content-Type', None)
+                    ))
 
         else:
             data = req.data if req._p['body'] else req._p['formData']
-- 
2.43.0


From ee9a8282f87880de4ef34aed4c7b4cc8c8e66880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 34/73] fix: parameters of a path item should not override each
 other

---
 pyswagger/scanner/v2_0/patch_obj.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index e4b1d2b..4df3fe8 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -28,12 +28,11 @@ class PatchObject(object):
         # combine parameters from PathItem
         if obj._parent_:
             if obj.parameters:
+                # only parameters of this operation override, those
+                # from PathItem don't override each other.
+                names = [final(pp).name for pp in obj.parameters]
                 for p in obj._parent_.parameters:
-                    p_final = final(p)
-                    for pp in obj.parameters:
-                        if p_final.name == final(pp).name:
-                            break
-                    else:
+                    if final(p).name not in names:
                         obj.parameters.append(p)
             else:
                 obj.update_field('parameters', copy.copy(obj._parent_.parameters))
-- 
2.43.0


From 522f942ae25d236ebf30c00e18ee326feaa50f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 35/73] fix: FlaskTestClient should be able to send forms

---
 pyswagger/contrib/client/flask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 31b8996..1ff2640 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -55,7 +55,8 @@ class FlaskTestClient(BaseClient):
                     ))
 
         else:
-            data = req.data if req._p['body'] else req._p['formData']
+            # already encoded, either form or body
+            data = req.data
 
         r = self.__client.open(
             path=req.url,
-- 
2.43.0


From 4014296caf3f0100d9f2af0093a93784da23d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 36/73] fix: keep order and repeated values of lists when
 merging referenced objects

---
 pyswagger/scanner/v2_0/merge.py | 34 +++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v2_0/merge.py b/pyswagger/scanner/v2_0/merge.py
index 107153f..0540ed5 100644
--- a/pyswagger/scanner/v2_0/merge.py
+++ b/pyswagger/scanner/v2_0/merge.py
@@ -11,16 +11,31 @@ from ...spec.v2_0.objects import (
     Response,
     PathItem,
     )
-from ...spec.base import NullContext
+from ...spec.base import BaseObj, NullContext
 from ...utils import CycleGuard
+import six
 
 
+def _keep_lists(dst, src):
+    """ merging unites lists as sets, the order and repeated values
+    should be kept in a copy.
+    """
+    for n in dst._field_names_:
+        v = getattr(src, n)
+        if isinstance(v, list) and v != getattr(dst, n) and not any(isinstance(e, BaseObj) for e in v):
+            dst.update_field(n, list(v))
+
+    children = src._children_
+    for n, c in six.iteritems(dst._children_):
+        _keep_lists(c, children[n])
+
 def _merge(obj, app, creator, parser):
     """ resolve $ref, and inject/merge referenced object to self.
     This operation should be carried in a cascade manner.
     """
     result = creator(NullContext())
     result.merge(obj, parser)
+    merged = [obj]
 
     guard = CycleGuard()
     guard.update(obj)
@@ -38,7 +53,17 @@ def _merge(obj, app, creator, parser):
             break
 
         result.merge(ro, parser)
+        merged.append(ro)
         r = getattr(ro, '$ref')
+
+    for n, c in six.iteritems(result._children_):
+        _keep_lists(c, [o._children_[n] for o in merged if n in o._children_][0])
+    if isinstance(result, Parameter):
+        # the default is a value, not a set to be united
+        for o in merged:
+            if o.default is not None:
+                result.update_field('default', o.default)
+                break
     return result
 
 class Merge(object):
@@ -56,5 +81,10 @@ class Merge(object):
 
     @Disp.register([PathItem])
     def _path_item(self, _, obj, app):
-        obj.merge(_merge(obj, app, PathItem, PathItemContext), PathItemContext)
+        merged = _merge(obj, app, PathItem, PathItemContext)
+        own = obj._children_
+        obj.merge(merged, PathItemContext)
+        for n, c in six.iteritems(obj._children_):
+            if n not in own:
+                _keep_lists(c, merged._children_[n])
 
-- 
2.43.0


From 4089f4473dd71f1b12a99c992eaeba6395ed515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 37/73] fix: every client should refuse files when
 multipart/form-data is not consumed

---
 pyswagger/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 7510cde..e4c1b16 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -92,9 +92,6 @@ class Request(object):
         """ private function to prepare content for paramType=form with File
         """
         content_type = 'multipart/form-data'
-        if self.__op.consumes and content_type not in self.__op.consumes:
-            raise errs.SchemaError('content type {0} does not present in {1}'.format(content_type, self.__op.consumes))
-
         boundary = uuid4().hex
         content_type += '; boundary={0}'
         content_type = content_type.format(boundary)
@@ -212,6 +209,10 @@ class Request(object):
         # update data parameter
         content_type = None
         if self.__p['file']:
+            # no matter who is going to encode it
+            if self.__op.consumes and 'multipart/form-data' not in self.__op.consumes:
+                raise errs.SchemaError('content type {0} does not present in {1}'.format('multipart/form-data', self.__op.consumes))
+
             if handle_files:
                 content_type, self.__data = self._prepare_files(encoding)
             else:
-- 
2.43.0


From 9726f10cfefcfa4d2e883cf414216aab5bdd1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 38/73] fix: bodies sent by requests should be encoded in UTF-8

---
 pyswagger/contrib/client/requests.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/requests.py b/pyswagger/contrib/client/requests.py
index fba11ee..5f64a0b 100644
--- a/pyswagger/contrib/client/requests.py
+++ b/pyswagger/contrib/client/requests.py
@@ -58,11 +58,16 @@ class Client(BaseClient):
             else:
                 append(k, v)
 
+        data = req.data
+        if isinstance(data, six.text_type):
+            # or it would be latin-1, if it could be encoded at all
+            data = data.encode('utf-8')
+
         rq = Request(
             method=req.method.upper(),
             url=req.url,
             params=req.query,
-            data=req.data,
+            data=data,
             headers=composed_headers,
             files=file_obj
         )
-- 
2.43.0


From 3d185b043b50041885bd3ea5ae97b66c9e24aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 39/73] fix: join headers whose names differ only by case

---
 pyswagger/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 9835e6f..3fa59da 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -610,7 +610,8 @@ class BaseClient(object):
             raise Exception('unknown type as header: {}'.format(str(type(headers))))
 
         if join_headers:
-            joined = {}
+            # names of headers are case insensitive
+            joined = utils.CaseInsensitiveDict()
             for h in aggregated_headers:
                 key = h[0]
                 if key in joined:
-- 
2.43.0


From 43f37865e1c182d31fda033d3cc243989615c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 40/73] fix: headers of the request should win over customized
 ones spelled in another case

---
 pyswagger/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 3fa59da..c4097bf 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -594,9 +594,11 @@ class BaseClient(object):
         join_headers = opt.get(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
-            headers = dict(headers)
-            headers.update(req.header)
-            return headers
+            # names of headers are case insensitive
+            composed = utils.CaseInsensitiveDict()
+            composed.update(headers)
+            composed.update(req.header)
+            return dict(composed.items())
 
         # include Request.headers
         aggregated_headers = list(req.header.items())
-- 
2.43.0


From 11dc15de13fed00cecbfbd9cb3920cd9ba734aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 41/73] fix: codecs registered with parameters in their media
 type could not be found

---
 pyswagger/primitives/codec.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyswagger/primitives/codec.py b/pyswagger/primitives/codec.py
index 1fa261f..0fe2bd5 100644
--- a/pyswagger/primitives/codec.py
+++ b/pyswagger/primitives/codec.py
@@ -11,16 +11,20 @@ class MimeCodec:
         self.register('application/json', jsonCodec)
         self.register('text/json', jsonCodec)
 
+    @staticmethod
+    def _normalize(mime):
+        """ parameters, blanks and case are irrelevant when looking for codecs
+        """
+        return mime.split(';', 1)[0].strip().lower()
+
     def register(self, mime, codec):
-        self._codecs[mime.lower()] = codec
+        self._codecs[self._normalize(mime)] = codec
 
     def unregister(self, mime):
-        self._codecs.pop(mime.lower())
+        self._codecs.pop(self._normalize(mime))
 
     def codec(self, mime):
-        mime = mime.split(';', 1)[0]
-        mime = mime.strip().lower()
-        return self._codecs.get(mime, None)
+        return self._codecs.get(self._normalize(mime), None)
 
     def marshal(self, mime, value, **kwargs):
         codec = self.codec(mime)
-- 
2.43.0


From 0da730cb750e0c9da943fd6c464fd4f653a90118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 42/73] fix: api keys in query should be sent once when a
 parameter of that name has several values

---
 pyswagger/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index d1a126a..e89f4b4 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -289,16 +289,19 @@ def get_dict_as_tuple(d):
     return None
 
 def nv_tuple_list_replace(l, v):
-    """ replace a tuple in a tuple list
+    """ replace a tuple in a tuple list, others with the same
+    name are removed.
     """
-    _found = False
-    for i, x in enumerate(l):
-        if x[0] == v[0]:
-            l[i] = v
-            _found = True
-
-    if not _found:
-        l.append(v)
+    replaced = []
+    for x in l:
+        if x[0] != v[0]:
+            replaced.append(x)
+        elif v not in replaced:
+            replaced.append(v)
+
+    if v not in replaced:
+        replaced.append(v)
+    l[:] = replaced
 
 def path2url(p):
     """ Return file:// URL from a filename.
-- 
2.43.0


From 01bb15a4f0a80fe79a56343d8401004e62e74ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:49 +0000
Subject: [PATCH 43/73] fix: text/plain responses were read as the
 representation of bytes in Python 3

---
 pyswagger/primitives/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/codec.py b/pyswagger/primitives/codec.py
index 0fe2bd5..c6697f8 100644
--- a/pyswagger/primitives/codec.py
+++ b/pyswagger/primitives/codec.py
@@ -44,6 +44,8 @@ class PlainCodec:
         return value
 
     def unmarshal(self, data, **kwargs):
+        if isinstance(data, six.binary_type) and kwargs.get('_format', None) not in ('byte', 'binary'):
+            data = data.decode('utf-8')
         return data
 
 
-- 
2.43.0


From 766134a40c3691dc01b86a495d8f07b9c0e41b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 44/73] fix: cycle detection took time exponential to the
 number of schemas referred to more than once

---
 pyswagger/utils.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index e89f4b4..9bc3874 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -446,8 +446,15 @@ def get_swagger_version(obj):
         # should be an instance of BaseObj
         return obj.swaggerVersion if hasattr(obj, 'swaggerVersion') else obj.swagger
 
+# listing every cycle might take time exponential to the size of a graph:
+# - limit of the number of times that a vertex is visited in one walk
+# - limit of the number of cycles listed
+_WALK_MAX_VISIT = 16
+_WALK_MAX_CYCLES = 1000
+
 def walk(start, ofn, cyc=None):
-    """ Non recursive DFS to detect cycles
+    """ Non recursive DFS to detect cycles. At least one cycle is listed when
+    there is any.
 
     :param start: start vertex in graph
     :param ofn: function to get the list of outgoing edges of a vertex
@@ -456,17 +463,20 @@ def walk(start, ofn, cyc=None):
     :rtype: list of lists
     """
     ctx, stk = {}, [start]
+    out, visited = {}, {start: 1}
     cyc = [] if cyc == None else cyc
 
-    while len(stk):
+    while len(stk) and len(cyc) < _WALK_MAX_CYCLES:
         top = stk[-1]
 
         if top not in ctx:
-            ctx.update({top:list(ofn(top))})
+            if top not in out:
+                out[top] = list(ofn(top))
+            ctx.update({top:list(out[top])})
 
         if len(ctx[top]):
             n = ctx[top][0]
-            if n in stk:
+            if n in ctx:
                 # cycles found,
                 # normalize the representation of cycles,
                 # start from the smallest vertex, ex.
@@ -478,8 +488,12 @@ def walk(start, ofn, cyc=None):
                 if nc not in cyc:
                     cyc.append(nc)
 
+                ctx[top].pop(0)
+            elif visited.get(n, 0) >= _WALK_MAX_VISIT:
+                # everything reachable from it is already visited
                 ctx[top].pop(0)
             else:
+                visited[n] = visited.get(n, 0) + 1
                 stk.append(n)
         else:
             ctx.pop(top)
-- 
2.43.0


From 15506fdb4357c0141936ebd75fce01dccae2dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:53 +0000
Subject: [PATCH 45/73] fix: documents in a folder with characters to be quoted
 in its url could not be loaded

---
 pyswagger/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 6ed4090..ca0b370 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -51,7 +51,7 @@ class Resolver(object):
                 getter = self.__default_getter or UrlGetter
                 p = six.moves.urllib.parse.urlparse(local_url)
                 if p.scheme == 'file' and p.path:
-                    getter = LocalGetter(os.path.join(p.netloc, p.path))
+                    getter = LocalGetter(six.moves.urllib.parse.unquote(os.path.join(p.netloc, p.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From a9d83480035f7be8ec1dc9d4a8c28ac5ddedb1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 46/73] fix: relative references of a document loaded by its
 folder should be relative to that folder

---
 pyswagger/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 9bc3874..030db5a 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -396,7 +396,11 @@ def normalize_jr(jr, url=None):
             p = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file
             if not path.startswith('/'):
-                path = '/'.join([os.path.dirname(p.path).rstrip('/'), path])
+                folder = p.path
+                if p.scheme != 'file' or not os.path.isdir(six.moves.urllib.parse.unquote(p.path)):
+                    # not a folder containing swagger.json
+                    folder = os.path.dirname(p.path)
+                path = '/'.join([folder.rstrip('/'), path])
             path = six.moves.urllib.parse.urlunparse(p[:2]+(path,)+p[3:])
             path = derelativise_url(path)
     else:
-- 
2.43.0


From ce283976d2e03e9f0b1055ffdeeb9d5dc220abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 47/73] fix: documents should be read as UTF-8 whatever the
 locale is

---
 pyswagger/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index abdc8fb..4269557 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -110,7 +110,7 @@ class LocalGetter(Getter):
         logger.info('final path to load: [{0}]'.format(path))
 
         ret = None
-        with open(path, 'r') as f:
+        with open(path, 'rb') as f:
             ret = f.read()
         return ret
 
-- 
2.43.0


From 638bfb53656669b4953e178952c4d00dbe568c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:45 +0000
Subject: [PATCH 48/73] fix: parameters and responses of operations given by
 $ref path items should be merged whatever the order is

---
 pyswagger/scanner/v2_0/merge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/merge.py b/pyswagger/scanner/v2_0/merge.py
index 0540ed5..c2964a0 100644
--- a/pyswagger/scanner/v2_0/merge.py
+++ b/pyswagger/scanner/v2_0/merge.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 from ...errs import CycleDetectionError
-from ...scan import Dispatcher
+from ...scan import Dispatcher, Scanner
 from ...spec.v2_0.parser import (
     ParameterContext,
     ResponseContext,
@@ -87,4 +87,7 @@ class Merge(object):
         for n, c in six.iteritems(obj._children_):
             if n not in own:
                 _keep_lists(c, merged._children_[n])
+                # this child is not known to the one who is traversing, its
+                # parameters and responses need to be merged, too.
+                Scanner(app).scan(root=c, route=[self])
 
-- 
2.43.0


From f993bd4b6174953e472e5c175cb53c2a5adf62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:58 +0000
Subject: [PATCH 49/73] fix: a base path ending with '/' should not double it
 in urls

---
 pyswagger/scanner/v2_0/patch_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 4df3fe8..810dc5e 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -61,7 +61,7 @@ class PatchObject(object):
             url = six.moves.urllib.parse.urlunparse((
                     '',                            # schema
                     host,                          # netloc
-                    (app.root.basePath or '') + k, # path
+                    (app.root.basePath or '').rstrip('/') + k, # path
                     '', '', '',                    # param, query, fragment
             ))
             base_path = app.root.basePath
-- 
2.43.0


From 027f529f4dabede908587cf2fc3abbaedf9b0804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 50/73] fix: aggregated schemas should keep lists and parents
 of their members, and be overridden by the closest schema

---
 pyswagger/scanner/v2_0/aggt.py | 51 +++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/pyswagger/scanner/v2_0/aggt.py b/pyswagger/scanner/v2_0/aggt.py
index ae2f09d..4f689b9 100644
--- a/pyswagger/scanner/v2_0/aggt.py
+++ b/pyswagger/scanner/v2_0/aggt.py
@@ -1,12 +1,15 @@
 from __future__ import absolute_import
 from ...scan import Dispatcher
 from ...errs import CycleDetectionError
-from ...spec.v2_0.objects import Schema
-from ...spec.base import NullContext
+from ...spec.v2_0.objects import Schema, Parameter, Response
+from ...spec.base import BaseObj, NullContext
 from ...spec.v2_0.parser import SchemaContext
-from ...utils import deref, CycleGuard
+from ...utils import deref, final as _final, CycleGuard
 import six
 
+# fields that can't be merged with those of another schema
+_as_a_whole = ['$ref', 'default', 'example'] + list(SchemaContext.__swagger_child__)
+
 def _compose(obj, guard=None):
     guard = CycleGuard() if not guard else guard
 
@@ -20,13 +23,31 @@ def _compose(obj, guard=None):
 
     if obj.items != None:
         _compose(obj.items, guard)
+    if isinstance(obj.additionalProperties, BaseObj):
+        _compose(obj.additionalProperties, guard)
     for v in six.itervalues(obj.properties):
         _compose(v, guard)
     for v in (obj.allOf or []):
         _compose(v, guard)
 
     final = Schema(NullContext())
-    final.merge(obj, SchemaContext)
+    final.merge(obj, SchemaContext, exclude=_as_a_whole)
+    whole = {}
+    properties = {}
+
+    def _take(o):
+        # these fields are taken as a whole, there is no way to combine
+        # two of them. Children still belong to where they are declared,
+        # they might be not aggregated, yet.
+        for n in _as_a_whole:
+            if n not in whole and getattr(o, n) != Schema.__swagger_fields__[n]:
+                whole[n] = getattr(o, n)
+        # a schema overrides its members
+        for n, p in six.iteritems(o.properties):
+            properties.setdefault(n, p)
+
+    _take(obj)
+    whole['allOf'] = list(obj.allOf)
 
     # those 'allOf' are visited by the last CycleGuard,
     # we need use a new one
@@ -38,16 +59,14 @@ def _compose(obj, guard=None):
         except CycleDetectionError:
             continue
         o = o.final if o.final else o
-        # values are taken as a whole, there is no way to combine two of them
-        final.merge(o, SchemaContext, exclude=['$ref', 'allOf', 'default', 'example'])
-        for n in ('default', 'example'):
-            if getattr(final, n) is None and getattr(o, n) is not None:
-                final.update_field(n, getattr(o, n))
-        for n, p in six.iteritems(o.properties):
-            if n in obj.properties:
-                continue
-            final.properties[n] = p
+        final.merge(o, SchemaContext, exclude=_as_a_whole)
+        _take(o)
         stk.extend(o.allOf or [])
+
+    whole['properties'] = properties
+    for n, v in six.iteritems(whole):
+        if v != Schema.__swagger_fields__[n]:
+            final.update_field(n, v)
     obj.update_field('final', final)
 
 
@@ -63,3 +82,9 @@ class Aggregate(object):
     @Disp.register([Schema])
     def _schema(self, path, obj, _):
         _compose(obj)
+
+    @Disp.register([Parameter, Response])
+    def _schema_of(self, path, obj, _):
+        schema = _final(obj).schema
+        if schema != None:
+            _compose(schema)
-- 
2.43.0


From 8877a25d012c64e86f84e70e6a8ec3bbe721c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 51/73] fix: info is optional in Swagger 1.2

---
 pyswagger/scanner/v1_2/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f65a5f9..1167024 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -98,12 +98,12 @@ class Upgrade(object):
         info.update_field('description', get_or_none(obj, 'info', 'description'))
         info.update_field('termsOfService', get_or_none(obj, 'info', 'termsOfServiceUrl'))
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact = objects.Contact(NullContext())
             contact.update_field('email', get_or_none(obj, 'info', 'contact'))
             info.update_field('contact', contact)
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(obj, 'info', 'licenseUrl'):
             license = objects.License(NullContext())
             license.update_field('name', get_or_none(obj, 'info', 'license'))
             license.update_field('url', get_or_none(obj, 'info', 'licenseUrl'))
-- 
2.43.0


From e3da0708d1e4e405b308c587f2d1985a6b208116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 52/73] fix: scopes in authorizations of a 1.2 resource could
 not be upgraded

---
 pyswagger/scanner/v1_2/upgrade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 1167024..01c4cea 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -165,7 +165,8 @@ class Upgrade(object):
         _auth = obj.authorizations if obj.authorizations and len(obj.authorizations) > 0 else obj._parent_.authorizations
         if _auth:
             for name, scopes in six.iteritems(_auth):
-                o.security.append({name: [v.scope for v in scopes]})
+                # those of Resource are not parsed
+                o.security.append({name: [v['scope'] if isinstance(v, dict) else v.scope for v in scopes]})
 
         # Operation return value
         o.update_field('responses', {})
-- 
2.43.0


From d3fa5f898ef37e6cba2633e02a844fb10d7a7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:18 +0000
Subject: [PATCH 53/73] fix: keep bounds that are zero, exact, or of multiple
 values when upgrading

---
 pyswagger/scanner/v1_2/upgrade.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 01c4cea..2544090 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -30,11 +30,13 @@ def update_type_and_ref(dst, src, scope, sep, app):
 def convert_min_max(dst, src):
     def _from_str(name):
         v = getattr(src, name, None)
-        if v:
+        if v not in (None, ''):
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst.update_field(name, int(float(v)))
+                try:
+                    dst.update_field(name, int(v))
+                except ValueError:
+                    dst.update_field(name, int(float(v)))
             elif src.type == 'number':
                 dst.update_field(name, float(v))
             else:
@@ -235,6 +237,7 @@ class Upgrade(object):
                 if obj.is_set("defaultValue"):
                     o.update_field('default', [obj.defaultValue])
                 o.items.update_field('enum', obj.enum)
+                convert_min_max(o.items, obj)
             else:
                 o.update_field('type', obj.type.lower())
                 o.update_field('format', obj.format)
-- 
2.43.0


From 6b781b8e82ddf3018e1a63d2b0769ab1c1cbb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:32 +0000
Subject: [PATCH 54/73] fix: names with '/' or '~' in Swagger 1.2 should
 survive the upgrade

---
 pyswagger/scanner/v1_2/upgrade.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 2544090..f3d44f7 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from ...spec.base import NullContext
 from ...scan import Dispatcher
 from ...errs import SchemaError
-from ...utils import scope_compose, get_or_none
+from ...utils import scope_compose, get_or_none, jp_compose, jp_split
 from ...consts import private
 from ...spec.v1_2.objects import (
     ResourceList,
@@ -17,15 +17,23 @@ import os
 import six
 
 
+def get_name(path):
+    """ get the name of Resource or Authorization from JSON pointer to
+    any object under it. """
+    return jp_split(path)[2]
+
+def ref_to_model(scope, name, sep):
+    return jp_compose(scope_compose(scope, name, sep=sep), base='#/definitions')
+
 def update_type_and_ref(dst, src, scope, sep, app):
     ref = getattr(src, '$ref')
     if ref:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, ref, sep=sep))
+        dst.update_field('$ref', ref_to_model(scope, ref, sep))
 
     if app.prim_factory.is_primitive(getattr(src, 'type', None)):
         dst.update_field('type', src.type.lower())
     elif src.type:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, src.type, sep=sep))
+        dst.update_field('$ref', ref_to_model(scope, src.type, sep))
 
 def convert_min_max(dst, src):
     def _from_str(name):
@@ -134,7 +142,7 @@ class Upgrade(object):
 
     @Disp.register([Resource])
     def _resource(self, path, obj, app):
-        name = obj.get_name(path)
+        name = get_name(path)
         for t in self.__swagger.tags:
             if t.name == name:
                 break
@@ -146,7 +154,7 @@ class Upgrade(object):
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         o = objects.Operation(NullContext())
-        scope = obj._parent_.get_name(path)
+        scope = get_name(path)
 
         o.update_field('tags', [scope])
         o.update_field('operationId', obj.nickname)
@@ -207,12 +215,12 @@ class Upgrade(object):
             o.update_field('name', obj.keyname)
             o.update_field('in', obj.passAs)
 
-        self.__swagger.securityDefinitions[obj.get_name(path)] = o
+        self.__swagger.securityDefinitions[get_name(path)] = o
 
     @Disp.register([Parameter])
     def _parameter(self, path, obj, app):
         o = objects.Parameter(NullContext())
-        scope = obj._parent_._parent_.get_name(path)
+        scope = get_name(path)
 
         o.update_field('name', obj.name)
         o.update_field('required', obj.required)
@@ -258,9 +266,9 @@ class Upgrade(object):
 
     @Disp.register([Model])
     def _model(self, path, obj, app):
-        scope = obj._parent_.get_name(path)
+        scope = get_name(path)
 
-        s = scope_compose(scope, obj.get_name(path), sep=self.__sep)
+        s = scope_compose(scope, obj.id, sep=self.__sep)
         o = self.__swagger.definitions.get(s, None)
         if not o:
             o = objects.Schema(NullContext())
@@ -285,7 +293,7 @@ class Upgrade(object):
                 self.__swagger.definitions[sub_s] = sub_o
 
             new_ref = objects.Schema(NullContext())
-            new_ref.update_field('$ref', '#/definitions/' + s)
+            new_ref.update_field('$ref', jp_compose(s, base='#/definitions'))
             sub_o.allOf.append(new_ref)
 
     @property
-- 
2.43.0


From 0afb8a48713dea446eca2b4b5cbc47e7c2565097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 55/73] fix: split hosts, schemes and paths from each basePath,
 instead of from their common prefix

---
 pyswagger/scanner/v1_2/upgrade.py | 37 ++++++++++++++++---------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f3d44f7..bda1b86 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -13,7 +13,6 @@ from ...spec.v1_2.objects import (
     Model,
 )
 from ...spec.v2_0 import objects
-import os
 import six
 
 
@@ -96,6 +95,17 @@ class Upgrade(object):
     def __init__(self, sep=private.SCOPE_SEPARATOR):
         self.__swagger = None
         self.__sep = sep
+        self.__hosts = set()
+
+    def _locate(self, resource, path):
+        """ split the url of an operation into (scheme, path), and take
+        note of its host. """
+        base = resource.basePath
+        p = six.moves.urllib.parse.urlparse(base)
+        self.__hosts.add(p.netloc)
+
+        base = base[len(six.moves.urllib.parse.urlunparse(p[:2]+('', '', '', ''))):]
+        return p.scheme, (base.rstrip('/') if path.startswith('/') else base) + path
 
     @Disp.register([ResourceList])
     def _resource_list(self, path, obj, app):
@@ -185,7 +195,9 @@ class Upgrade(object):
             resp.update_field('schema', convert_schema_from_datatype(obj, scope, self.__sep, app))
         o.responses['default'] = resp
 
-        path = obj._parent_.basePath + obj.path
+        scheme, path = self._locate(obj._parent_, obj.path)
+        if scheme == 'https':
+            o.update_field('schemes', [scheme])
         if path not in self.__swagger.paths:
             self.__swagger.paths[path] = objects.PathItem(NullContext())
 
@@ -259,7 +271,7 @@ class Upgrade(object):
                 o.update_field('uniqueItems', obj.uniqueItems)
                 o.update_field('items', convert_items(obj.items, app))
 
-        path = obj._parent_._parent_.basePath + obj._parent_.path
+        _, path = self._locate(obj._parent_._parent_, obj._parent_.path)
         method = obj._parent_.method.lower()
         op = getattr(self.__swagger.paths[path], method)
         op.parameters.append(o)
@@ -304,20 +316,9 @@ class Upgrade(object):
         if not self.__swagger:
             return None
 
-        common_path = os.path.commonprefix(list(self.__swagger.paths))
-        # remove tailing slash,
-        # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[-1] == '/' else common_path
-
-        if len(common_path) > 0:
-            p = six.moves.urllib.parse.urlparse(common_path)
-            self.__swagger.update_field('host', p.netloc)
-
-            new_common_path = six.moves.urllib.parse.urlunparse((
-                p.scheme, p.netloc, '', '', '', ''))
-            new_path = {}
-            for k in self.__swagger.paths.keys():
-                new_path[k[len(new_common_path):]] = self.__swagger.paths[k]
-            self.__swagger.update_field('paths', new_path)
+        if len(self.__hosts) > 1:
+            raise SchemaError('Can\'t have more than one host: {0}'.format(sorted(self.__hosts)))
+        if len(self.__hosts) > 0:
+            self.__swagger.update_field('host', list(self.__hosts)[0])
 
         return self.__swagger
-- 
2.43.0


From d20c36d229eb02e6318ae324d6b788f1a2921d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:46 +0000
Subject: [PATCH 56/73] fix: models of Swagger 1.2 should be named by their id
 when the separator is customized

---
 pyswagger/core.py                   | 2 +-
 pyswagger/scanner/v2_0/patch_obj.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index c4097bf..75a30da 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -318,7 +318,7 @@ class App(object):
 
         s = Scanner(self)
         s.scan(root=self.__root, route=[Merge()])
-        s.scan(root=self.__root, route=[PatchObject()])
+        s.scan(root=self.__root, route=[PatchObject(self.__sep)])
         s.scan(root=self.__root, route=[Aggregate()])
 
         # reducer for Operation
diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 810dc5e..a4fdd26 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from ...scan import Dispatcher
 from ...spec.v2_0.objects import PathItem, Operation, Schema, Swagger
 from ...spec.v2_0.parser import PathItemContext
+from ...consts import private
 from ...utils import jp_split, scope_split, final
 import six
 import copy
@@ -16,6 +17,9 @@ class PatchObject(object):
 
     class Disp(Dispatcher): pass
 
+    def __init__(self, sep=private.SCOPE_SEPARATOR):
+        self.__sep = sep
+
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         """
@@ -89,7 +93,7 @@ class PatchObject(object):
         if path.startswith('#/definitions'):
             last_token = jp_split(path)[-1]
             if app.version == '1.2':
-                obj.update_field('name', scope_split(last_token)[-1])
+                obj.update_field('name', scope_split(last_token, sep=self.__sep)[-1])
             else:
                 obj.update_field('name', last_token)
 
-- 
2.43.0


From b86170854b7675a66712c517591032debdb22901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:35 +0000
Subject: [PATCH 57/73] fix: an authorization not in the resource list should
 be an error, instead of failing the validation

---
 pyswagger/scanner/v1_2/validate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index ea1d80a..ac91141 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -131,6 +131,7 @@ class Validate(object):
         for k, v in six.iteritems(obj.authorizations or {}):
             if k not in app.raw.authorizations:
                 errs.append('auth {0} not found in resource list'.format(k))
+                continue
 
             if app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
                 errs.append('auth {0} should be an empty list'.format(k))
-- 
2.43.0


From a48e67c3dfd1ca1d0d7b2be8035174c34247c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:48 +0000
Subject: [PATCH 58/73] fix: validation of File parameters should consider
 'consumes' of its resource

---
 pyswagger/scanner/v1_2/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index ac91141..b32d171 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -66,7 +66,8 @@ class Validate(object):
         if obj.type == 'File':
             if obj.paramType != 'form':
                 errs.append('File parameter should be form type: {0}'.format(obj.name))
-            if 'multipart/form-data' not in obj._parent_.consumes:
+            op = obj._parent_
+            if 'multipart/form-data' not in (op.consumes or op._parent_.consumes or []):
                 errs.append('File parameter should consume multipart/form-data: {0}'.format(obj.name))
 
         if obj.type == 'void':
-- 
2.43.0


From 2f92cbbd125b9c943028fd53c6b968b51490a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:04 +0000
Subject: [PATCH 59/73] fix: report an invalid description before converting it

---
 pyswagger/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 75a30da..a71d2ed 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -245,6 +245,8 @@ class App(object):
         s = Scanner(self)
         v = v_mod.Validate()
 
+        # fix for yaml that treat response code as number
+        s.scan(root=self.__raw, route=[YamlFixer()], leaves=[Operation])
         s.scan(route=[v], root=self.__raw)
         return v.errs
 
@@ -306,8 +308,9 @@ class App(object):
         :param bool strict: when in strict mode, exception would be raised if not valid.
         """
 
-        self.__root = self.prepare_obj(self.raw, self.__url)
+        # invalid descriptions should be reported before they are converted
         self.validate(strict=strict)
+        self.__root = self.prepare_obj(self.raw, self.__url)
 
         if hasattr(self.__root, 'schemes') and self.__root.schemes:
             if len(self.__root.schemes) > 0:
-- 
2.43.0


From 2c9e89ad33fd21c40b6febbee1ec1849628cd4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:17 +0000
Subject: [PATCH 60/73] fix: dates, bytes and UUIDs composed by allOf could not
 be created

---
 pyswagger/primitives/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 819ebf3..ea73b70 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -202,11 +202,13 @@ class Primitive(object):
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
-        if isinstance(ret, (Date, Datetime, Byte, File)):
+        if isinstance(ret, (Date, Datetime, Byte, File, UUID)):
             # it's meanless to handle allOf for these types.
             return ret
 
         def _apply_one(o, r, v, c):
+            if isinstance(r, (Date, Datetime, Byte, File, UUID)):
+                return v
             if hasattr(ret, 'apply_with'):
                 v = r.apply_with(o, v, c)
             else:
-- 
2.43.0


From 8dfd7be1ac3b86e1f7f44ec7f5b11a7711a8f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 61/73] fix: render enumerated values that are false, 0 or
 empty

---
 pyswagger/primitives/render.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d606ea7..e4d0502 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -23,7 +23,7 @@ maxInt64 = 1 << 63 - 1
 minInt64 = -maxInt64
 
 def _int_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
@@ -38,7 +38,7 @@ def _int_(obj, _, val=None):
     return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
 
 def _float_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     # TODO: exclusiveMaximum == False is not implemented.
@@ -55,7 +55,7 @@ def _float_(obj, _, val=None):
     return float(out)
 
 def _str_(obj, opt, val=None):
-    if val:
+    if val is not None:
         return val
 
     max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
@@ -65,7 +65,7 @@ def _str_(obj, opt, val=None):
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
 
 def _bool_(obj, _, val=None):
-    return bool(val) if val else random.randint(0, 1) == 0
+    return bool(val) if val is not None else random.randint(0, 1) == 0
 
 def _uuid_(obj, _, val=None):
     return uuid.UUID(val) if val else uuid.uuid4()
@@ -77,7 +77,7 @@ def _email_name_():
     + random.choice(string.ascii_letters)
 
 def _email_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     host_length = random.randint(2, 100)
@@ -91,7 +91,7 @@ def _email_(obj, _, val=None):
         + ''.join([random.choice(names) for _ in six.moves.xrange(region_length)])
 
 def _byte_(obj, opt, val=None):
-    return val if val else base64.b64encode(
+    return val if val is not None else base64.b64encode(
         six.b(''.join([random.choice(string.ascii_letters) for _ in range(random.randint(0, opt['max_byte_length']))]))
     )
 
-- 
2.43.0


From 4e433100ca5dc3fc836a1d347353854f697c1a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:53 +0000
Subject: [PATCH 62/73] fix: rendered numbers should respect every bound, and
 be available whenever there is one

---
 pyswagger/primitives/render.py | 73 ++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index e4d0502..ad26607 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -1,7 +1,8 @@
 from __future__ import absolute_import
 from ..spec.v2_0.objects import Parameter, Operation, Schema
 from ..utils import deref, final, from_iso8601
-from decimal import Decimal
+from fractions import Fraction
+import math
 import random
 import six
 import sys
@@ -17,42 +18,62 @@ import time
 # TODO: enum of object, array
 
 # min/max of integer
-maxInt32 = 1 << 31 - 1
-minInt32 = -maxInt32
-maxInt64 = 1 << 63 - 1
-minInt64 = -maxInt64
+maxInt32 = (1 << 31) - 1
+minInt32 = -maxInt32 - 1
+maxInt64 = (1 << 63) - 1
+minInt64 = -maxInt64 - 1
+
+def _multiple_(obj, step, min_, max_):
+    """ a random multiple of 'step' within the range """
+    lo = int(math.ceil(Fraction(min_) / step))
+    hi = int(math.floor(Fraction(max_) / step))
+    if obj.exclusiveMinimum and obj.minimum is not None and lo * step <= Fraction(obj.minimum):
+        lo = lo + 1
+    if obj.exclusiveMaximum and obj.maximum is not None and hi * step >= Fraction(obj.maximum):
+        hi = hi - 1
+    return random.randint(lo, hi) * step
 
 def _int_(obj, _, val=None):
     if val is not None:
         return val
 
-    max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
-    max_ = obj.maximum if obj.maximum else max_
-    max_ = max_-1 if obj.exclusiveMaximum else max_
+    is_32 = getattr(obj, 'format') in ['int32', None]
+    max_ = maxInt32 if is_32 else maxInt64
+    min_ = minInt32 if is_32 else minInt64
+    # a bound could be outside of the default range
+    if obj.minimum is not None and obj.minimum >= max_:
+        max_ = obj.minimum + max_
+    if obj.maximum is not None and obj.maximum <= min_:
+        min_ = obj.maximum + min_
+    max_ = obj.maximum if obj.maximum is not None else max_
+    min_ = obj.minimum if obj.minimum is not None else min_
 
-    min_ = minInt32 if getattr(obj, 'format') in ['int32', None] else minInt64
-    min_ = obj.minimum if obj.minimum else min_
-    min_ = min_+1 if obj.exclusiveMinimum else min_
-
-    out = random.randint(min_, max_)
-    return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
+    # integers that are multiples of a fraction are multiples of its numerator
+    return int(_multiple_(obj, Fraction(str(obj.multipleOf or 1)).numerator, min_, max_))
 
 def _float_(obj, _, val=None):
     if val is not None:
         return val
 
-    # TODO: exclusiveMaximum == False is not implemented.
-    max_ = obj.maximum if obj.maximum else sys.float_info.max
-    min_ = obj.minimum if obj.minimum else sys.float_info.min
-
-    out = None
-    while out == None:
-        out = min_ + (max_ - min_) * random.random()
-        if obj.multipleOf and obj.multipleOf != 0:
-            out = int(out / obj.multipleOf) * obj.multipleOf
-        if out <= min_ and obj.exclusiveMinimum:
-            out = None
-    return float(out)
+    if obj.multipleOf:
+        step = Fraction(str(obj.multipleOf))
+        max_ = obj.maximum if obj.maximum is not None else (obj.minimum or 0) + maxInt32 * step
+        min_ = obj.minimum if obj.minimum is not None else max_ - maxInt32 * step
+        return float(_multiple_(obj, step, min_, max_))
+
+    max_ = obj.maximum if obj.maximum is not None else sys.float_info.max
+    min_ = obj.minimum if obj.minimum is not None else -sys.float_info.max
+    if min_ > max_ or (min_ == max_ and (obj.exclusiveMinimum or obj.exclusiveMaximum)):
+        raise ValueError('No number is available: {0}'.format(obj))
+
+    while True:
+        r = random.random()
+        out = min(max(min_ * (1 - r) + max_ * r, min_), max_)
+        if out == min_ and obj.exclusiveMinimum:
+            continue
+        if out == max_ and obj.exclusiveMaximum:
+            continue
+        return float(out)
 
 def _str_(obj, opt, val=None):
     if val is not None:
-- 
2.43.0


From 696ed7c377aa03e63fb680d3bf9db661154a0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:28 +0000
Subject: [PATCH 63/73] fix: rendered strings and arrays should respect lengths
 of 0, and those beyond the default maximum

---
 pyswagger/primitives/render.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index ad26607..24f9a10 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -75,15 +75,17 @@ def _float_(obj, _, val=None):
             continue
         return float(out)
 
+def _length_(min_, max_, default):
+    """ a random length, the default one is only for those without maximum """
+    min_ = min_ or 0
+    return random.randint(min_, max_ if max_ is not None else max(min_, default))
+
 def _str_(obj, opt, val=None):
     if val is not None:
         return val
 
-    max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
-    min_ = obj.minLength if obj.minLength else 0
-
     # note: length is 0~100, characters are limited to ASCII
-    return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
+    return ''.join([random.choice(string.ascii_letters) for _ in range(_length_(obj.minLength, obj.maxLength, opt['max_str_length']))])
 
 def _bool_(obj, _, val=None):
     return bool(val) if val is not None else random.randint(0, 1) == 0
@@ -228,10 +230,8 @@ class Renderer(object):
                                 break
 
         elif type_ == 'array':
-            min_ = obj.minItems if obj.minItems else 0
-            max_ = obj.maxItems if obj.maxItems else opt['max_array_length']
             out = []
-            for _ in six.moves.xrange(random.randint(min_, max_)):
+            for _ in six.moves.xrange(_length_(obj.minItems, obj.maxItems, opt['max_array_length'])):
                 out.append(self._generate(obj.items, opt))
 
         elif type_ != None:
-- 
2.43.0


From 0fbe7e5aab8371615854868fcbd1e7fa4569ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:42 +0000
Subject: [PATCH 64/73] fix: render unique items when they should be

---
 pyswagger/primitives/render.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 24f9a10..eab53d2 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -231,8 +231,16 @@ class Renderer(object):
 
         elif type_ == 'array':
             out = []
-            for _ in six.moves.xrange(_length_(obj.minItems, obj.maxItems, opt['max_array_length'])):
-                out.append(self._generate(obj.items, opt))
+            count = _length_(obj.minItems, obj.maxItems, opt['max_array_length'])
+            # some items might not be able to be unique that many times
+            tries = count * 100 + 1000
+            while len(out) < count and tries > 0:
+                tries = tries - 1
+                item = self._generate(obj.items, opt)
+                if not (obj.uniqueItems and item in out):
+                    out.append(item)
+            if len(out) < (obj.minItems or 0):
+                raise ValueError('Unable to generate enough unique items: {0}'.format(obj))
 
         elif type_ != None:
             out = None
-- 
2.43.0


From 349bb07734e8210f3a4a4fafc9b44cbe67171a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:57 +0000
Subject: [PATCH 65/73] fix: rendered objects should have as many properties as
 allowed, without read-only ones

---
 pyswagger/primitives/render.py | 54 ++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index eab53d2..284b82f 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -193,39 +193,63 @@ class Renderer(object):
         r = self._map.get(_type, None)
         return None if r == None else r.get(_format, None)
 
+    def _pick(self, obj, opt):
+        """ pick those declared properties to generate
+
+        :return: list of names
+        """
+        properties, required = obj.properties or {}, obj.required or []
+        fixed, picked, skipped = [], [], []
+        for name, prop in six.iteritems(properties):
+            if name in opt['object_template'] or name in required:
+                fixed.append(name)
+            elif final(deref(prop)).readOnly:
+                # should not be sent in requests
+                continue
+            elif opt['max_property'] or not (random.randint(0, 1) == 0 or opt['minimal_property']):
+                picked.append(name)
+            else:
+                skipped.append(name)
+
+        # the count of properties might be limited
+        count = len(fixed) + len([name for name in required if name not in properties])
+        if obj.maxProperties is not None and count + len(picked) > obj.maxProperties:
+            picked = random.sample(picked, max(obj.maxProperties - count, 0))
+        count = count + len(picked)
+        if not isinstance(obj.additionalProperties, Schema) and count < (obj.minProperties or 0):
+            picked.extend(random.sample(skipped, min(obj.minProperties - count, len(skipped))))
+        return [name for name in properties if name in fixed or name in picked]
+
     def _generate(self, obj, opt):
         obj = final(deref(obj))
         type_ = getattr(obj, 'type', None)
         template = opt['object_template']
         out = None
         if type_ == 'object':
-            max_p = opt['max_property']
             out = {}
-            max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
-            min_ = obj.minProperties if obj.minProperties else None
-            count = 0
-            for name, prop in six.iteritems(obj.properties or {}):
-                if name in template:
-                    out[name] = template[name]
-                    continue
-                if not max_p and not name in obj.required:
-                    if random.randint(0, 1) == 0 or opt['minimal_property']:
-                        continue
-                out[name] = self._generate(prop, opt)
-                count = count + 1
+            properties = obj.properties or {}
+            required = obj.required or []
+            min_ = obj.minProperties or 0
+
+            for name in self._pick(obj, opt):
+                out[name] = template[name] if name in template else self._generate(properties[name], opt)
 
             if isinstance(obj.additionalProperties, Schema):
                 # TODO: additionalProperties == True is not handled
 
+                for name in required:
+                    if name not in properties:
+                        out[name] = template[name] if name in template else self._generate(obj.additionalProperties, opt)
+
                 # generate random properties
-                more = random.randint(min_, max_) - count
+                more = _length_(min_, obj.maxProperties, opt['max_prop_count']) - len(out)
                 if more > 0:
                     # generate a random string as property-name
                     for _ in six.moves.xrange(more):
                         while True:
                             length = random.randint(0, opt['max_name_length'])
                             name = ''.join([random.choice(string.ascii_letters) for _ in six.moves.xrange(length)])
-                            if name not in out:
+                            if name not in out and name not in properties:
                                 out[name] = self._generate(obj.additionalProperties, opt)
                                 break
 
-- 
2.43.0


From c9aeb6186c15501d929ed8cdee39a5bc3bb9a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:24 +0000
Subject: [PATCH 66/73] fix: render integers in number type, and values with
 unknown formats

---
 pyswagger/primitives/render.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 284b82f..9fa2478 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -168,6 +168,8 @@ class Renderer(object):
                 None: _float_,
                 'float': _float_,
                 'double': _float_,
+                'int32': _int_,
+                'int64': _int_,
             },
             'string': {
                 '': _str_,
@@ -191,7 +193,10 @@ class Renderer(object):
 
     def _get(self, _type, _format=None):
         r = self._map.get(_type, None)
-        return None if r == None else r.get(_format, None)
+        if r is None:
+            return None
+        # those with unknown format are generated as those without format
+        return r.get(_format, r.get(None))
 
     def _pick(self, obj, opt):
         """ pick those declared properties to generate
-- 
2.43.0


From def54706653db2d735a1365c54d7baaee007aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:38 +0000
Subject: [PATCH 67/73] fix: render parameters declared by reference

---
 pyswagger/primitives/render.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 9fa2478..b5505ca 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -333,6 +333,7 @@ class Renderer(object):
         if not isinstance(opt, dict):
             raise ValueError('Not a dict: {0}'.format(opt))
 
+        obj = final(deref(obj)) if isinstance(obj, Parameter) else obj
         if isinstance(obj, Parameter):
             if getattr(obj, 'in', None) == 'body':
                 return self._generate(obj.schema, opt)
@@ -360,6 +361,7 @@ class Renderer(object):
         max_p = opt['max_parameter']
         out = {}
         for p in op.parameters:
+            p = final(deref(p))
             if p.name in exclude:
                 continue
             if p.name in template:
-- 
2.43.0


From 6d074933f4b0745e56106912be8442171bcfb904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:24 +0000
Subject: [PATCH 68/73] fix: rendering nested arrays of unique items should not
 take minutes

---
 pyswagger/primitives/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index b5505ca..f8185a4 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -262,7 +262,7 @@ class Renderer(object):
             out = []
             count = _length_(obj.minItems, obj.maxItems, opt['max_array_length'])
             # some items might not be able to be unique that many times
-            tries = count * 100 + 1000
+            tries = count * 20 + 100
             while len(out) < count and tries > 0:
                 tries = tries - 1
                 item = self._generate(obj.items, opt)
-- 
2.43.0


From b9865f7a773ec7f05786c60b0c3597715440af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:19 +0000
Subject: [PATCH 69/73] fix: drop the elements of a unique array converted to
 the same value

---
 pyswagger/primitives/_array.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index fc5782f..06710f4 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -41,7 +41,12 @@ class Array(list):
             val = seen
 
         if obj.items and len(val):
-            self.extend([ctx['factory'].produce(obj.items, v, ctx=dict(read=ctx['read'])) for v in val])
+            for v in val:
+                e = ctx['factory'].produce(obj.items, v, ctx=dict(read=ctx['read']))
+                # different values might be converted to the same element
+                if obj.uniqueItems and e in self:
+                    continue
+                self.append(e)
             val = []
 
         # init array as list
-- 
2.43.0


From a5a715b2943d0520a43405f3106275058886e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:29 +0000
Subject: [PATCH 70/73] fix: path parameters whose names are special to
 str.format

---
 pyswagger/io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index e4c1b16..3d39ec6 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -5,6 +5,7 @@ from pyswagger import errs
 from uuid import uuid4
 import six
 import io, codecs
+import re
 import collections
 import logging
 
@@ -193,15 +194,19 @@ class Request(object):
             raise ValueError('"scheme" should be a list or string')
 
         # combine path parameters into path
-        # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
             path_params[k] = six.moves.urllib.parse.quote(v, safe="")
 
-        self.__path = self.__path.format(**path_params)
+        # names might contain characters that are special to python-format,
+        # ex. 'dot' is allowed in swagger
+        def _fill(template):
+            return re.sub(r'{([^{}]*)}', lambda m: path_params[m.group(1)], template)
+
+        self.__path = _fill(self.__path)
 
         # combine path parameters into url
-        self.__url = ''.join([scheme, ':', self.__url.format(**path_params)])
+        self.__url = ''.join([scheme, ':', _fill(self.__url)])
 
         # header parameters
         self.__header.update(self.__p['header'])
-- 
2.43.0


From 6345e5c1c220c2be91d04f229207915a27b9fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:12 +0000
Subject: [PATCH 71/73] fix: LocalGetter should unquote the path of file URLs

---
 pyswagger/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 4269557..f5bfab3 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -67,7 +67,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
-- 
2.43.0


From df9bbf51dd8efe7b30cf6214be45cf998f2e3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:25 +0000
Subject: [PATCH 72/73] fix: load files under a folder named like a file

---
 pyswagger/getter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index f5bfab3..174d14f 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -106,7 +106,9 @@ class LocalGetter(Getter):
     def load(self, path):
         logger.info('to load: [{0}]'.format(path))
 
-        path = patch_path(self.base_path, path)
+        # the extension of a folder is not the one of files under it
+        if not os.path.isfile(path):
+            path = patch_path(self.base_path, path)
         logger.info('final path to load: [{0}]'.format(path))
 
         ret = None
-- 
2.43.0


From 34b3bdc8e2061cc302a7599813e65b4cf4994cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:36 +0000
Subject: [PATCH 73/73] fix: resolve references to values of any type

---
 pyswagger/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index a71d2ed..24fb94c 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -438,7 +438,8 @@ class App(object):
         if obj == None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
 
-        if isinstance(obj, (six.string_types, six.integer_types, list, dict)):
+        # values of leaves, ex. strings, numbers, lists
+        if not isinstance(obj, BaseObj):
             return obj
         return weakref.proxy(obj)
 
-- 
2.43.0

