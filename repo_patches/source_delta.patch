From 68a8fc15b978dc4ad2f3e59ae45e842fd683ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 01/90] fix: compare every element of primitive containers and
 list lengths

---
 pyopenapi/migration/spec/obj.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index bd81c0a..d94afac 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -257,8 +257,10 @@ class _List(_Base):
 
         for idx, (self_, other_) in enumerate(zip(self, other)):
             new_base = jp_compose(str(idx), base=base)
-            if isinstance(self_, six.string_types + six.integer_types):
-                return self_ == other_, new_base
+            if not hasattr(self_, 'compare'):
+                if self_ != other_:
+                    return False, new_base
+                continue
 
             same, name = self_.compare(other_, base=new_base)
             if not same:
@@ -408,9 +410,10 @@ class _Map(_Base):
 
         for name in self.__elm:
             new_base = jp_compose(name, base=base)
-            if isinstance(self.__elm[name],
-                          six.string_types + six.integer_types):
-                return self.__elm[name] == other[name], new_base
+            if not hasattr(self.__elm[name], 'compare'):
+                if self.__elm[name] != other[name]:
+                    return False, new_base
+                continue
 
             same, name = self.__elm[name].compare(other[name], base=new_base)
             if not same:
@@ -602,6 +605,8 @@ class Base2Obj(_Base):
             if isinstance(self_, (Base2Obj, _Map, _List)):
                 return self_.compare(other_, base=name)
             if isinstance(self_, list):
+                if len(self_) != len(other_):
+                    return False, name
                 for i, elm in zip(range(len(self_)), self_):
                     same, location = _cmp_(
                         jp_compose(str(i), name), elm, other_[i])
-- 
2.43.0


From 75c5e9340af7a37785d2306cf064611b3bdcc35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 02/90] fix: dump boolean additionalProperties instead of
 failing or dropping it

---
 pyopenapi/migration/spec/obj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index d94afac..b9b2fe7 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -652,7 +652,11 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if child_:
+            if isinstance(child_, bool):
+                # ex. additionalProperties
+                ret[name] = child_
+                fields.discard(name)
+            elif child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
-- 
2.43.0


From 8f8fa780adf715869507096820d9662204a05b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 03/90] fix: resolve JSON pointers ending at primitives inside
 maps and lists

---
 pyopenapi/migration/spec/obj.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index b9b2fe7..97d0245 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -181,6 +181,18 @@ class _Base(object):
         return self.__path
 
 
+def _resolve_elm(elm, parts):
+    """ keep resolving from an element of containers, which might be
+    a primitive without 'resolve'.
+    """
+    if not parts:
+        return elm
+    if not hasattr(elm, 'resolve'):
+        raise FieldNotExist('unable to resolve {} from {}'.format(
+            parts, str(type(elm))))
+    return elm.resolve(parts)
+
+
 def list_(builder):
     """ class factory for _Map, would create a new class based on _List
     and assign __child_class__
@@ -241,7 +253,7 @@ class _List(_Base):
         obj = self
         if parts:
             idx = parts.pop(0)
-            return self.__elm[int(idx)].resolve(parts)
+            return _resolve_elm(self.__elm[int(idx)], parts)
         return obj
 
     def merge_children(self, other):
@@ -390,7 +402,7 @@ class _Map(_Base):
         obj = self
         if parts:
             key = parts.pop(0)
-            return self.__elm[key].resolve(parts)
+            return _resolve_elm(self.__elm[key], parts)
         return obj
 
     def merge_children(self, other):
-- 
2.43.0


From 9abe066d7b11a58dd454c7febc873d52ec3bf87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 04/90] fix: encode names of nested children exactly once, and
 allow integer keys

---
 pyopenapi/migration/spec/obj.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 97d0245..8a53cca 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -311,7 +311,8 @@ class _List(_Base):
             )):
                 children = obj.get_children()
                 for name in children:
-                    ret[jp_compose([str(idx), name])] = children[name]
+                    # children's names are already encoded
+                    ret['/'.join([str(idx), name])] = children[name]
 
         self.update_children_cache(ret)
         return ret
@@ -456,6 +457,7 @@ class _Map(_Base):
             return ret
 
         for name, obj in six.iteritems(self.__elm):
+            name = jp_compose(str(name))
             if isinstance(obj, Base2Obj):
                 ret[name] = obj
             elif isinstance(obj, (
@@ -464,7 +466,8 @@ class _Map(_Base):
             )):
                 children = obj.get_children()
                 for key in children:
-                    ret[jp_compose([name, key])] = children[key]
+                    # children's names are already encoded
+                    ret['/'.join([name, key])] = children[key]
 
         self.update_children_cache(ret)
         return ret
@@ -736,7 +739,8 @@ class Base2Obj(_Base):
             )):
                 children = obj.get_children()
                 for child_name in children:
-                    ret[jp_compose([name, child_name])] = children[child_name]
+                    # children's names are already encoded
+                    ret['/'.join([name, child_name])] = children[child_name]
 
         self.update_children_cache(ret)
         return ret
-- 
2.43.0


From cf5f6abe448e1c5618e42b87612fc52d80df9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 05/90] fix: get_children never returns stale children after
 mutation of nested containers

---
 pyopenapi/migration/spec/obj.py | 39 +++------------------------------
 1 file changed, 3 insertions(+), 36 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 8a53cca..ff5c5e9 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -135,8 +135,6 @@ class _Base(object):
         # inside 'override':
         #   (first token of jp_split) => (reminder of jp_split, value)
 
-        self.children_cache = {}
-
         # setup override
         for k, val in six.iteritems(override or {}):
             tokens = jp_split(k, 1)
@@ -158,15 +156,6 @@ class _Base(object):
         """
         return k in self.spec
 
-    def get_children_cache(self):
-        return self.children_cache
-
-    def invalidate_children_cache(self):
-        self.children_cache = {}
-
-    def update_children_cache(self, cache):
-        self.children_cache = cache
-
     def get_parent(self):
         """ get parent object
         :return: the parent object.
@@ -298,10 +287,7 @@ class _List(_Base):
         return []
 
     def get_children(self):
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
+        ret = {}
         for idx, obj in enumerate(self.__elm):
             if isinstance(obj, Base2Obj):
                 ret[str(idx)] = obj
@@ -314,7 +300,6 @@ class _List(_Base):
                     # children's names are already encoded
                     ret['/'.join([str(idx), name])] = children[name]
 
-        self.update_children_cache(ret)
         return ret
 
     def __iter__(self):
@@ -331,13 +316,9 @@ class _List(_Base):
         return self.__elm == other
 
     def append(self, obj):
-        self.invalidate_children_cache()
-
         return self.__elm.append(obj)
 
     def extend(self, other):
-        self.invalidate_children_cache()
-
         return self.__elm.extend(other)
 
 
@@ -452,10 +433,7 @@ class _Map(_Base):
         return self.__elm.keys()
 
     def get_children(self):
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
+        ret = {}
         for name, obj in six.iteritems(self.__elm):
             name = jp_compose(str(name))
             if isinstance(obj, Base2Obj):
@@ -469,15 +447,12 @@ class _Map(_Base):
                     # children's names are already encoded
                     ret['/'.join([name, key])] = children[key]
 
-        self.update_children_cache(ret)
         return ret
 
     def __getitem__(self, key):
         return self.__elm[key]
 
     def __setitem__(self, key, obj):
-        self.invalidate_children_cache()
-
         self.__elm[key] = obj
 
     def __contains__(self, elm):
@@ -601,8 +576,6 @@ class Base2Obj(_Base):
                 if obj:
                     setattr(self, name, obj)
 
-        self.invalidate_children_cache()
-
     def compare(self, other, base=None):
         """ comparison, will return the first difference, mainly used for testing """
 
@@ -698,8 +671,6 @@ class Base2Obj(_Base):
         if hasattr(obj, 'set_parent'):
             obj.set_parent(self)
 
-        self.invalidate_children_cache()
-
     @classmethod
     def attach_field(cls, name, **field_descriptor):
         desc = copy.copy(field_descriptor)
@@ -723,10 +694,7 @@ class Base2Obj(_Base):
         """ get children objects
         :rtype: a dict of children {child_name: child_object}
         """
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
+        ret = {}
         for name in self.__children__:
             obj = getattr(self, name)
             if not obj:
@@ -742,7 +710,6 @@ class Base2Obj(_Base):
                     # children's names are already encoded
                     ret['/'.join([name, child_name])] = children[child_name]
 
-        self.update_children_cache(ret)
         return ret
 
     def get_attrs(self, namespace, group_cls=None):
-- 
2.43.0


From 925da9f5a1b9efe70fa5095e84f828b21bab7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 06/90] fix: set parent for empty containers and for elements
 added to containers

---
 pyopenapi/migration/spec/obj.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index ff5c5e9..87c06e7 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -316,10 +316,13 @@ class _List(_Base):
         return self.__elm == other
 
     def append(self, obj):
+        if hasattr(obj, 'set_parent'):
+            obj.set_parent(self)
         return self.__elm.append(obj)
 
     def extend(self, other):
-        return self.__elm.extend(other)
+        for obj in list(other):
+            self.append(obj)
 
 
 def map_(builder):
@@ -453,6 +456,8 @@ class _Map(_Base):
         return self.__elm[key]
 
     def __setitem__(self, key, obj):
+        if hasattr(obj, 'set_parent'):
+            obj.set_parent(self)
         self.__elm[key] = obj
 
     def __contains__(self, elm):
@@ -541,7 +546,7 @@ class Base2Obj(_Base):
         for name in self.__children__:
             # trigger the getter of children, it will create it if exist
             chd = getattr(self, name)
-            if chd and hasattr(chd, 'set_parent'):
+            if hasattr(chd, 'set_parent'):
                 chd.set_parent(self)
 
     def resolve(self, parts):
-- 
2.43.0


From 798ed9015ba4fa2de916d38f2f76eeff7b167759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 07/90] fix: look up the object store by JSON pointer tokens,
 not by string prefix

---
 pyopenapi/migration/store.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 6884020..9b38f58 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -14,6 +14,13 @@ from .spec import _Base
 logger = logging.getLogger(__name__)
 
 
+def _is_under(jp, prefix):
+    """ check if 'jp' is located at or under 'prefix', token by token
+    ex. '#/definitions/PetTag' is not under '#/definitions/Pet'
+    """
+    return not prefix or jp == prefix or jp.startswith(prefix + '/')
+
+
 class SpecObjStore(object):
     """ cache of spec objects
     """
@@ -51,7 +58,7 @@ class SpecObjStore(object):
 
         # try to find a 'jp' with common prefix with input under 'url'
         for path, cache in six.iteritems(url_cache):
-            if jp.startswith(path) and spec_version in cache:
+            if _is_under(jp, path) and spec_version in cache:
                 return cache[spec_version].resolve(
                     utils.jp_split(jp[len(path):])[1:])
 
@@ -72,7 +79,7 @@ class SpecObjStore(object):
 
         ret = {}
         for path, cache in six.iteritems(url_cache):
-            if path.startswith(jp) and spec_version in cache:
+            if _is_under(path, jp) and spec_version in cache:
                 ret[path[len(jp) + 1:]] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
-- 
2.43.0


From b3462d9b722adb35cf5feac6bfd4a9d000767010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 08/90] fix: relocate JSON pointers by tokens, not by string
 prefix

---
 pyopenapi/migration/store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 9b38f58..ebcd506 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -141,7 +141,7 @@ class SpecObjStore(object):
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
                 # find the longest prefix in from_
-                if not remain_jp.startswith(from_):
+                if not _is_under(remain_jp, from_):
                     continue
                 if not patch_from or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
-- 
2.43.0


From b39aefbcc194146907122e9dfb7033775207449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 09/90] fix: examples of a media type is a map

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 503552a..482363e 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -311,7 +311,7 @@ class MediaType(Base2_v3_0_0):
 
     __children__ = {
         'schema': dict(child_builder=SchemaOrReference),
-        'examples': dict(child_builder=ExampleOrReference),
+        'examples': dict(child_builder=map_(ExampleOrReference)),
         'encoding': dict(child_builder=map_(Encoding)),
     }
 
-- 
2.43.0


From 7e678f2b32117efed5239ba8f314b00d4e51bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 10/90] fix: keep 'content' of Header objects

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 482363e..25cdaa7 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -317,6 +317,7 @@ class MediaType(Base2_v3_0_0):
 
 
 Parameter.attach_field('content', builder=child, child_builder=map_(MediaType))
+Header.attach_field('content', builder=child, child_builder=map_(MediaType))
 
 
 class RequestBody(Base2_v3_0_0):
-- 
2.43.0


From df25458a66334cd4cdca1a0176e8ab9064424823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 11/90] fix: keep 'style' of Encoding objects

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 25cdaa7..8e143bd 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -289,7 +289,7 @@ HeaderOrReference = if_not_ref_else(Header)
 class Encoding(Base2_v3_0_0):
     __fields__ = {
         'contentType': dict(),
-        'stype': dict(),
+        'style': dict(),
         'explode': dict(),
         'allowReserved': dict(),
     }
-- 
2.43.0


From 524328ca3dc850047ad956e9fe37e0f27c28e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 12/90] fix: keep 'deprecated' of Schema objects

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 8e143bd..baf6bbb 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -187,7 +187,7 @@ class Schema(Base2_v3_0_0):
         'readOnly': dict(),
         'writeOnly': dict(),
         'example': dict(),
-        'depreated': dict(),
+        'deprecated': dict(),
     }
 
     __children__ = {
-- 
2.43.0


From 383e7e7edc2ccdaf2988c307d0b0e11266c72ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 13/90] fix: alias client_credentials of OAuthFlows

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index baf6bbb..19724c4 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -399,7 +399,7 @@ class OAuthFlows(Base2_v3_0_0):
     }
 
     __internal__ = {
-        'client_credentials': dict(key='clientCredential', builder=rename),
+        'client_credentials': dict(key='clientCredentials', builder=rename),
         'authorization_code': dict(key='authorizationCode', builder=rename),
     }
 
-- 
2.43.0


From 0932bbd5ff6bd41e065e1a0b75744ea4fd1294c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 14/90] fix: load and migrate top-level security requirements
 of Swagger 2.0

---
 pyopenapi/migration/versions/v2_0/objects.py                    | 2 +-
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 9605d74..a27dccf 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -384,7 +384,7 @@ class Swagger(BaseObj_v2_0):
         'parameters': dict(child_builder=map_(Parameter)),
         'responses': dict(child_builder=map_(Response)),
         'securityDefinitions': dict(child_builder=map_(SecurityScheme)),
-        'security': dict(child_builder=list_(list_(is_str))),
+        'security': dict(child_builder=list_(map_(list_(is_str)))),
         'tags': dict(child_builder=list_(Tag)),
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9729b35..9a49c3b 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -624,7 +624,7 @@ def to_openapi(obj, path):
 
     # security
     if obj.security:
-        ret['security'] = obj.security
+        ret['security'] = obj.security.dump()
 
     # tag
     if obj.tags:
-- 
2.43.0


From 525bab4bb4923654a4e09de1bbe22c73bd6e4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 15/90] fix: basic authentication becomes the http scheme in
 OpenAPI 3.0

---
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9a49c3b..5493ade 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -183,6 +183,7 @@ def to_security_scheme(obj, path):
     type_ = getattr(obj, 'type', None)
     ret['type'] = type_
     if type_ == 'basic':
+        ret['type'] = 'http'
         ret['scheme'] = 'basic'
     elif type_ == 'oauth2':
         ret['flows'] = to_flows(obj, path)
-- 
2.43.0


From 0abfced81bf5ba809005329ebff91cf851a3c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 16/90] fix: rename oauth2 flows when migrating to OpenAPI 3.0

---
 .../migration/versions/v2_0/scanner/upgrade/constants.py  | 8 ++++++++
 .../migration/versions/v2_0/scanner/upgrade/converters.py | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
index 6136ed4..5022aaa 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
@@ -51,3 +51,11 @@ FILE_CONTENT_TYPES = [
     'video/webm',
     'video/ogg',
 ]
+
+# name of oauth2 flows in Swagger 2.0 (or the ones upgraded from 1.2)
+# that are different in OpenAPI 3.0
+OAUTH_FLOWS = {
+    'application': 'clientCredentials',
+    'accessCode': 'authorizationCode',
+    'access_code': 'authorizationCode',
+}
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 5493ade..9cdf8f7 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -5,7 +5,7 @@ import six
 
 from ......utils import jp_compose, deref
 from ......errs import SchemaError
-from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS
+from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS, OAUTH_FLOWS
 from .parameter_context import ParameterContext
 
 
@@ -166,7 +166,7 @@ def to_flows(obj, path):
         raise SchemaError('no flow type for oauth2, {}'.format(path))
 
     ret = {}
-    flow = ret.setdefault(obj.flow, {})
+    flow = ret.setdefault(OAUTH_FLOWS.get(obj.flow, obj.flow), {})
     flow.update(_generate_fields(obj, [
         'authorizationUrl',
         'tokenUrl',
-- 
2.43.0


From 1d74ce188921b01e49e5fe835aecf1ca0210724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 17/90] fix: schema of file responses is located under 'schema'

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9cdf8f7..b7d4959 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -416,8 +416,8 @@ def to_response(obj, produces, path):
         type_ = getattr(resolved_obj.schema, 'type', None)
         if type_ == 'file':
             media_type = content.setdefault('application/octet-stream', {})
-            media_type['type'] = 'string'
-            media_type['format'] = 'binary'
+            media_type['schema'] = to_schema(resolved_obj.schema,
+                                             jp_compose('schema', base=path))
         else:
             for type_ in produces:
                 content[type_] = {
-- 
2.43.0


From e2918ae1492b4f23ed055419abd3d5e8d3a4576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 18/90] fix: migrate oauth2 security schemes without scopes

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index b7d4959..5469bc9 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -172,8 +172,8 @@ def to_flows(obj, path):
         'tokenUrl',
     ]))
 
-    if obj.scopes:
-        flow['scopes'] = obj.scopes.dump()
+    # 'scopes' is required in OpenAPI 3.0
+    flow['scopes'] = obj.scopes.dump() if obj.scopes else {}
 
     return ret
 
-- 
2.43.0


From 68cf988602e6d31a513fa1de68da5432ac1c223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 19/90] fix: dump required children even when they are empty

---
 pyopenapi/migration/spec/obj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 87c06e7..a6805b3 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -649,7 +649,8 @@ class Base2Obj(_Base):
                 # ex. additionalProperties
                 ret[name] = child_
                 fields.discard(name)
-            elif child_:
+            elif child_ or (child_ is not None
+                            and self.__children__[name].get('required')):
                 ret[name] = child_.dump()
                 fields.discard(name)
 
-- 
2.43.0


From 43de57dc4fb270c260dabf92095ea0ffc2fc3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 20/90] fix: parameters of Link objects could be any value

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 19724c4..d487c61 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -57,6 +57,12 @@ def is_str_or_int(spec, path, override):
         str(type(spec)), path))
 
 
+def is_any(spec, path, override):
+    if override:
+        raise Exception('attemp to override a value in {}'.format(path))
+    return spec
+
+
 class Contact(Base2_v3_0_0):
     __fields__ = {
         'name': dict(),
@@ -344,7 +350,7 @@ class Link(Base2_v3_0_0):
 
     __children__ = {
         'server': dict(child_builder=Server),
-        'parameters': dict(child_builder=map_(is_str)),
+        'parameters': dict(child_builder=map_(is_any)),
     }
 
     __internal__ = {
-- 
2.43.0


From e56e894783d03ce964e1fc436fd4c902589f585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 21/90] fix: a reference to an empty object is not unresolved

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 4 ++--
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 2a66fe1..6c99463 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -43,9 +43,9 @@ def _resolve(obj, expected, attr_group_cls, app, path):
         parser=expected,
         remove_dummy=True,
     )
-    if not resolved:
+    if resolved is None:
         raise JsonReferenceError('Unable to resolve: {} in {}'.format(
-            obj.normalized_ref, path))
+            attrs.normalized_ref, path))
 
     attrs.ref_obj = resolved
 
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 77e7170..b21150a 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -57,9 +57,9 @@ def _resolve(obj, expected, app, path):
         to_spec_version='3.0.0',
         remove_dummy=True,
     )
-    if not resolved:
-        raise JsonReferenceError('Unable to resolve: {}'.format(
-            obj.normalized_ref))
+    if resolved is None:
+        raise JsonReferenceError('Unable to resolve: {} in {}'.format(
+            attrs.normalized_ref, path))
 
     if obj.ref.startswith('#'):
         _, obj.ref = jr_split(new_ref)
-- 
2.43.0


From f6db88f6ed5fcf6f3f293d8e450293fad3f103bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 22/90] fix: resolve references relative to the URL of the
 referring document

---
 pyopenapi/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 64ecc2c..5dbd46b 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -263,11 +263,19 @@ def normalize_jr(json_ref, url=None):
         parsed = six.moves.urllib.parse.urlparse(url_part)
         if parsed.scheme == '' and url:
             url_parsed = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
-            url_part = six.moves.urllib.parse.urlunparse(
-                url_parsed[:2] +
-                ('/'.join([os.path.dirname(url_parsed.path), url_part]),
-                 ) + url_parsed[3:])
+            if parsed.netloc:
+                # //another.host/path
+                url_part = six.moves.urllib.parse.urlunparse(url_parsed[:1] +
+                                                             parsed[1:])
+            else:
+                path = parsed.path
+                if not path:
+                    path = url_parsed.path
+                elif not path.startswith('/'):
+                    # it's the path of relative file
+                    path = url_parsed.path.rsplit('/', 1)[0] + '/' + path
+                url_part = six.moves.urllib.parse.urlunparse(
+                    url_parsed[:2] + (path, ) + parsed[3:])
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From 6a23541dacbf62c3517b7bafd6ea544ce27fdc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 23/90] fix: load local files whose path is percent-encoded in
 file urls

---
 pyopenapi/migration/getter.py  | 2 +-
 pyopenapi/migration/resolve.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 5763156..11b533d 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -73,7 +73,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index bc04f24..acced81 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -55,7 +55,9 @@ class Resolver(object):
                 parsed = six.moves.urllib.parse.urlparse(local_url)
                 if parsed.scheme == 'file' and parsed.path:
                     getter = LocalGetter(
-                        os.path.join(parsed.netloc, parsed.path))
+                        os.path.join(parsed.netloc,
+                                     six.moves.urllib.parse.unquote(
+                                         parsed.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From 1f5b1a031c283bb5e6100a1782f1ed0f29edf334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 24/90] fix: locate the folder of .yml documents, and of urls
 ending with json or yaml without a dot

---
 pyopenapi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 5dbd46b..8eb2b5d 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -211,7 +211,7 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     parsed = six.moves.urllib.parse.urlparse(url)
-    for ext in [consts.FILE_EXT_JSON, consts.FILE_EXT_YAML]:
+    for ext in consts.VALID_FILE_EXT:
         if parsed.path.endswith(ext):
             return six.moves.urllib.parse.urlunparse(
                 parsed[:2] + (os.path.dirname(parsed.path), ) + parsed[3:])
-- 
2.43.0


From b27c5360ea1224958e99a862e7dd5c48101abfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 25/90] fix: cache the resource listing of Swagger 1.2 under
 its own url

---
 pyopenapi/migration/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3718738..5c39fe6 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -154,15 +154,15 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 map(lambda u: u[1:], resources))
 
             cached_apis = {}
-            for url, name in urls:
-                resource_spec = self.resolver.resolve(url, getter)
+            for api_url, name in urls:
+                resource_spec = self.resolver.resolve(api_url, getter)
                 if resource_spec is None:
                     raise Exception(
                         'unable to resolve {} when load spec from {}'.format(
-                            url, jref))
+                            api_url, jref))
                 cached_apis[name] = ApiDeclaration(resource_spec,
                                                    utils.jp_compose(
-                                                       name, base=url), {})
+                                                       name, base=api_url), {})
 
             obj.cached_apis = cached_apis
 
-- 
2.43.0


From 113818ddd0eaffb8660beef68f9d837167cdb626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 26/90] fix: decide the host of upgraded Swagger 1.2 documents
 by the host of each path

---
 .../versions/v1_2/scanner/upgrade.py          | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 1dbb506..e01f6d5 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
-import os
 import six
 from ..... import consts
 from .....errs import SchemaError
@@ -345,21 +344,20 @@ class Upgrade(object):
         if not self.__swagger:
             return None
 
-        common_path = os.path.commonprefix(list(self.__swagger['paths'].keys()))
-        # remove tailing slash,
-        # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[
-            -1] == '/' else common_path
-
-        if common_path:
-            parsed = six.moves.urllib.parse.urlparse(common_path)
-            self.__swagger['host'] = parsed.netloc
-
-            new_common_path = six.moves.urllib.parse.urlunparse(
-                (parsed.scheme, parsed.netloc, '', '', '', ''))
+        # paths are composed with 'basePath', when all of them are located on
+        # the same host, that host is the one of the Swagger object.
+        hosts = {
+            k: six.moves.urllib.parse.urlparse(k)[:2]
+            for k in self.__swagger['paths']
+        }
+        if len(set(netloc for _, netloc in hosts.values())) == 1:
             new_path = {}
-            for k in self.__swagger['paths'].keys():
-                new_path[k[len(new_common_path):]] = self.__swagger['paths'][k]
+            for k, (scheme, netloc) in six.iteritems(hosts):
+                self.__swagger['host'] = netloc
+                prefix = six.moves.urllib.parse.urlunparse(
+                    (scheme, netloc, '', '', '', ''))
+                new_path.setdefault(k[len(prefix):], {}).update(
+                    self.__swagger['paths'][k])
             self.__swagger['paths'] = new_path
 
         return Swagger(self.__swagger, '#')
-- 
2.43.0


From bb4033f411baeced35570047df8f52286ad65f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 27/90] fix: no doubled slash when basePath of Swagger 1.2 ends
 with one

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index e01f6d5..3017d20 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -184,7 +184,10 @@ def convert_operation(obj, api, api_decl, swagger, sep):
         'description'] = ''  # description is a required field in 2.0 Response object
     op_spec['responses']['default'] = resp_spec
 
-    path = api_decl.base_path + api.path
+    base_path = api_decl.base_path
+    if api.path.startswith('/') and base_path.endswith('/'):
+        base_path = base_path[:-1]
+    path = base_path + api.path
     if path not in swagger['paths']:
         swagger['paths'][path] = {}
 
-- 
2.43.0


From c9f27239fe7ab286dca3b784bc131a0ae4fefd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 28/90] fix: upgrade Swagger 1.2 documents without optional
 fields

---
 .../versions/v1_2/scanner/upgrade.py          | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 3017d20..57f1407 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -18,6 +18,11 @@ def _get_name(path):
     return path.split('/', 3)[2]
 
 
+def _get_scope(api_decl):
+    # 'resourcePath' is optional
+    return (api_decl.resourcePath or '')[1:]
+
+
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
 
 
@@ -144,7 +149,7 @@ def convert_parameter(param, scope, sep):
 def convert_operation(obj, api, api_decl, swagger, sep):
     op_spec = {}
 
-    scope = api_decl.resourcePath[1:]
+    scope = _get_scope(api_decl)
     if scope:
         op_spec['tags'] = [scope]
     if obj.is_set('nickname'):
@@ -164,7 +169,7 @@ def convert_operation(obj, api, api_decl, swagger, sep):
         op_spec['produces'] = produces
 
     parameters = op_spec.setdefault('parameters', [])
-    for param in obj.parameters:
+    for param in obj.parameters or []:
         parameters.append(convert_parameter(param, scope, sep))
 
     # if there is not authorizations in this operation,
@@ -196,7 +201,7 @@ def convert_operation(obj, api, api_decl, swagger, sep):
 
 
 def convert_model(model, api_decl, swagger, sep):
-    scope = api_decl.resourcePath[1:]
+    scope = _get_scope(api_decl)
 
     # Ex. a 'Status' model under 'Pet' resource
     # => new model-id would be 'Pet##Status'
@@ -270,14 +275,15 @@ class Upgrade(object):
             info_spec['termsOfService'] = terms_of_service
 
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact_spec = {}
             email = get_or_none(obj, 'info', 'contact')
             if email:
                 contact_spec['email'] = email
             info_spec['contact'] = contact_spec
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(
+                obj, 'info', 'licenseUrl'):
             license_spec = {}
             name = get_or_none(obj, 'info', 'license')
             if name:
@@ -293,7 +299,7 @@ class Upgrade(object):
 
     @Disp.register([ApiDeclaration])
     def _api_declaration(self, _, obj):
-        name = obj.resource_path[1:]
+        name = _get_scope(obj)
         for tag in self.__swagger['tags']:
             if tag['name'] == name:
                 break
@@ -306,7 +312,7 @@ class Upgrade(object):
             for operation in api.operations:
                 convert_operation(operation, api, obj, self.__swagger,
                                   self.__sep)
-        for _, model in obj.models.iteritems():
+        for _, model in six.iteritems(obj.models or {}):
             convert_model(model, obj, self.__swagger, self.__sep)
 
     @Disp.register([Authorization])
-- 
2.43.0


From 08ea052d76c7e3f2906f821bcf597fef01a52baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 29/90] fix: keep minimum and maximum of zero when upgrading
 from Swagger 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 57f1407..e90cdc0 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -44,7 +44,7 @@ def update_type_and_ref(dst, src, scope, sep):
 def convert_min_max(dst, src):
     def _from_str(name):
         val = getattr(src, name, None)
-        if val:
+        if val is not None and val != '':
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
                 # that's why we need to convert to float first
-- 
2.43.0


From 16abdecb038a60d5eaf96b3ead581e47f4011701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 30/90] fix: encode JSON pointers composed when upgrading from
 Swagger 1.2

---
 .../migration/versions/v1_2/scanner/upgrade.py     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index e90cdc0..6d147e1 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -4,7 +4,7 @@ from __future__ import absolute_import
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none
+from .....utils import scope_compose, get_or_none, jp_compose, jp_split
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -15,7 +15,11 @@ from ...v2_0.objects import Swagger
 
 
 def _get_name(path):
-    return path.split('/', 3)[2]
+    return jp_split(path)[2]
+
+
+def _get_model_ref(name):
+    return jp_compose(name, base='#/definitions')
 
 
 def _get_scope(api_decl):
@@ -33,12 +37,12 @@ def _is_primitive(type_):
 def update_type_and_ref(dst, src, scope, sep):
     ref = getattr(src, '$ref')
     if ref:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, ref, sep=sep)
+        dst['$ref'] = _get_model_ref(scope_compose(scope, ref, sep=sep))
 
     if _is_primitive(getattr(src, 'type', None)):
         dst['type'] = src.type.lower()
     elif src.type:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, src.type, sep=sep)
+        dst['$ref'] = _get_model_ref(scope_compose(scope, src.type, sep=sep))
 
 
 def convert_min_max(dst, src):
@@ -229,7 +233,7 @@ def convert_model(model, api_decl, swagger, sep):
         sub_o_spec = swagger['definitions'].setdefault(sub_s, {})
 
         new_ref = {}
-        new_ref['$ref'] = '#/definitions/' + new_scope
+        new_ref['$ref'] = _get_model_ref(new_scope)
         sub_o_spec.setdefault('allOf', []).append(new_ref)
 
 
-- 
2.43.0


From a6ffa6f7a15c4a136223ddbf3dca5b3e588f5475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 31/90] fix: no tag without name when resourcePath of Swagger
 1.2 is absent

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 6d147e1..14cdb4a 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -308,9 +308,10 @@ class Upgrade(object):
             if tag['name'] == name:
                 break
         else:
-            tag_spec = {}
-            tag_spec['name'] = name
-            self.__swagger['tags'].append(tag_spec)
+            if name:
+                tag_spec = {}
+                tag_spec['name'] = name
+                self.__swagger['tags'].append(tag_spec)
 
         for api in obj.apis:
             for operation in api.operations:
-- 
2.43.0


From 913a3b3dbff445e3cd45c88e9d0f734380fe8234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 32/90] fix: keep the range of multiple-valued parameters when
 upgrading from Swagger 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 14cdb4a..bf57107 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -131,6 +131,7 @@ def convert_parameter(param, scope, sep):
         p_spec['items'] = convert_items(param)
         if param.is_set("defaultValue"):
             p_spec['default'] = [param.defaultValue]
+        convert_min_max(p_spec['items'], param)
         p_spec['items']['enum'] = param.enum
     else:
         p_spec['type'] = param.type.lower()
-- 
2.43.0


From 66bd3daa7b35a8afb1564aeef8ec987d56498ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 33/90] fix: keep empty security requirement of operations when
 migrating to OpenAPI 3.0

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 5469bc9..f88614a 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -449,7 +449,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.tags:
         ret['tags'] = obj.tags.dump()
 
-    if obj.security:
+    if obj.security is not None:
+        # an empty one removes the requirement declared globally
         ret['security'] = obj.security.dump()
 
     # parameters
-- 
2.43.0


From a52e0fd8be6eb69335f671fa7cc39c8b58e88beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 34/90] fix: server url of Swagger 2.0 documents with only host
 or only basePath

---
 .../versions/v2_0/scanner/upgrade/converters.py       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index f88614a..940df9f 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -586,12 +586,13 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
 
 
 def from_swagger_to_server(obj, _):
-    url = obj.host if not obj.basePath else six.moves.urllib.parse.urlunsplit(
-        (obj.schemes[0]
-         if obj.schemes else 'https', obj.host, obj.basePath, None, None))
-    url = url or '/'
+    url = obj.basePath
+    if obj.host:
+        url = six.moves.urllib.parse.urlunsplit(
+            (obj.schemes[0] if obj.schemes else 'https', obj.host,
+             obj.basePath or '', '', ''))
 
-    return {'url': url}
+    return {'url': url or '/'}
 
 
 def to_openapi(obj, path):
-- 
2.43.0


From 69ef7a7d5036e33be58689c7fcb25b744de8999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 35/90] fix: encode names of request bodies when relocating
 JSON pointers

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 940df9f..05b2f51 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -669,7 +669,8 @@ def to_openapi(obj, path):
                         request_bodies = components.setdefault(
                             'requestBodies', {})
                     request_bodies[k] = param
-                    param_reloc[k] = '#/components/requestBodies/{}'.format(k)
+                    param_reloc[jp_compose(k)] = jp_compose(
+                        k, base='#/components/requestBodies')
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
-- 
2.43.0


From e82421c11d7d6ec43977480527a3236b0170f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 36/90] fix: no server url without host for schemes of
 operations

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 05b2f51..a909916 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -484,10 +484,11 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
                                                    'externalDocs', base=path))
 
     # schemes
-    if obj.schemes:
+    parts = six.moves.urllib.parse.urlsplit(root_url)
+    # when the host is unknown, there is no place to put those schemes
+    if obj.schemes and parts.netloc:
         servers = ret.setdefault('servers', [])
         for scheme in obj.schemes:
-            parts = six.moves.urllib.parse.urlsplit(root_url)
             servers.append({
                 'url':
                 six.moves.urllib.parse.urlunsplit((scheme, ) + parts[1:])
-- 
2.43.0


From cfaadc1c776efa6e07b3c11d21533b8f56a2f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 37/90] fix: one server for each scheme of Swagger 2.0
 documents

---
 .../v2_0/scanner/upgrade/converters.py         | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index a909916..d8bc582 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -596,6 +596,18 @@ def from_swagger_to_server(obj, _):
     return {'url': url or '/'}
 
 
+def from_swagger_to_servers(obj, path):
+    server = from_swagger_to_server(obj, path)
+    if not obj.host or not obj.schemes:
+        return [server]
+
+    # one server for each scheme
+    parts = six.moves.urllib.parse.urlsplit(server['url'])
+    return [{
+        'url': six.moves.urllib.parse.urlunsplit((scheme, ) + parts[1:])
+    } for scheme in obj.schemes]
+
+
 def to_openapi(obj, path):
     ret = {'openapi': '3.0.0'}
     reloc = {}
@@ -605,8 +617,8 @@ def to_openapi(obj, path):
         ret['info'] = to_info(obj.info, jp_compose('info', base=path))
 
     # servers
-    server = from_swagger_to_server(obj, path)
-    ret['servers'] = [server]
+    servers = from_swagger_to_servers(obj, path)
+    ret['servers'] = servers
 
     # paths
     if obj.paths:
@@ -618,7 +630,7 @@ def to_openapi(obj, path):
 
             paths[k], tmp_reloc = to_path_item(
                 path_,
-                server['url'],
+                servers[0]['url'],
                 jp_compose(k, base=path),
                 consumes=obj.consumes,
                 produces=obj.produces)
-- 
2.43.0


From fc54d81009a0e39748ab3785ca64b91a54686bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 38/90] fix: default collectionFormat of arrays in query is csv

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index d8bc582..343a938 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -349,7 +349,9 @@ def to_parameter(obj, path):
         ret.setdefault('schema', {})['items'] = from_items(
             obj.items, jp_compose('items', base=path))
 
-    if obj.is_set('collectionFormat'):
+    # the default 'collectionFormat' of arrays is 'csv', which is different
+    # from the default 'style' and 'explode' of query parameters.
+    if obj.is_set('collectionFormat') or (in_ == 'query' and type_ == 'array'):
         style, explode = to_style_and_explode(obj.collectionFormat, in_, type_,
                                               jp_compose(
                                                   'collectionFormat',
-- 
2.43.0


From ca237c40657d785ca8bbabc652c432aa7d7e082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 39/90] fix: keep collectionFormat of formData parameters

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 343a938..1ffe651 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -248,10 +248,11 @@ def to_encoding(obj, content_type, path):
             'application/x-www-form-urlencoded', 'multipart/form-data'
     ]:
         ret['contentType'] = _decide_encoding_content_type(obj, path)
-        if obj.is_set('collectionFormat'):
+        type_ = getattr(obj, 'type', None)
+        if obj.is_set('collectionFormat') or type_ == 'array':
+            # 'style' of Encoding follows the one of query parameters
             style, explode = to_style_and_explode(obj.collectionFormat,
-                                                  getattr(obj, 'in', None),
-                                                  getattr(obj, 'type', None),
+                                                  'query', type_,
                                                   jp_compose(
                                                       'collectionFormat',
                                                       base=path))
-- 
2.43.0


From 9efce814b41505948365acec164d54b180132b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 40/90] fix: resolve references to documents that are
 references

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 4 ++++
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 6c99463..34f48a7 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -49,6 +49,10 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     attrs.ref_obj = resolved
 
+    # the referenced one might be nothing but another reference
+    if isinstance(resolved, Reference):
+        _resolve(resolved, expected, attr_group_cls, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index b21150a..604da2d 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -69,6 +69,11 @@ def _resolve(obj, expected, app, path):
     attrs.normalized_ref = new_ref
     attrs.ref_obj = resolved
 
+    # the referenced one might be nothing but another reference
+    if isinstance(resolved, Reference) and resolved.get_attrs(
+            'migration', ReferenceAttributeGroup).ref_obj is None:
+        _resolve(resolved, expected, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
-- 
2.43.0


From 7bd6e280947531ec3739361f94250c5bb6386440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 41/90] fix: migrate parameters and responses referenced from
 other documents to OpenAPI 3.0

---
 pyopenapi/migration/versions/v3_0_0/main.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 597c4e1..ec50735 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -9,6 +9,9 @@ from ..v2_0.objects import (
     License,
     Schema,
     PathItem,
+    Parameter,
+    Response,
+    Reference,
 )
 from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
@@ -39,6 +42,20 @@ def upgrade(obj, app, jref):
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
             ret = objects.PathItem(migrated, path=jp, override=override)
+        elif isinstance(ret, Parameter):
+            migrated, pctx = converters.from_parameter(ret, None, None, jp)
+            ret = (objects.RequestBody if pctx.is_body else objects.Parameter)(
+                migrated, path=jp, override=override)
+        elif isinstance(ret, Response):
+            ret = objects.Response(
+                converters.to_response(ret, None, jp),
+                path=jp,
+                override=override)
+        elif isinstance(ret, Reference):
+            ret = objects.Reference(
+                {
+                    '$ref': ret.ref
+                }, path=jp, override=override)
         else:
             raise Exception(
                 'unable to upgrade from 2.0: {} for type: {}'.format(
-- 
2.43.0


From 3fc3b633d10ce1b1bb33879924d9cf9d31a2cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 42/90] fix: references inside objects inlined from other
 documents

---
 .../v2_0/scanner/upgrade/converters.py        | 58 +++++++++++++------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 1ffe651..75748f7 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -19,6 +19,13 @@ def _generate_fields(obj, names):
     return ret
 
 
+def _is_external(obj):
+    """ check if this object is a reference to another document
+    """
+    ref = getattr(obj, '$ref', None)
+    return bool(ref) and not ref.startswith('#')
+
+
 def to_style_and_explode(collection_format, in_, type_, path):
     style = None
     explode = None
@@ -97,16 +104,20 @@ def from_items(obj, path):
     return ret
 
 
-def to_schema(obj, path, items_converter=None):
+def to_schema(obj, path, items_converter=None, absolute_ref=False):
+    """ convert Schema object
+
+    :param bool absolute_ref: output absolute $ref, which is required when
+        this object is inlined in another document.
+    """
     ref = getattr(obj, '$ref', None)
     if ref:
-        return {'$ref': ref}
+        attrs = obj.get_attrs('migration') if absolute_ref else None
+        return {'$ref': attrs.normalized_ref if attrs else ref}
 
     if getattr(obj, 'type', None) == 'file':
         return {'type': 'string', 'format': 'binary'}
 
-    items_converter = items_converter or to_schema
-
     ret = {}
     ret.update(_generate_fields(obj, SCHEMA_FIELDS))
 
@@ -119,11 +130,17 @@ def to_schema(obj, path, items_converter=None):
         target = ret.setdefault('allOf', [])
         for index, schema in enumerate(all_of):
             target.append(
-                to_schema(schema, jp_compose(['allOf', str(index)], base=path)))
+                to_schema(
+                    schema,
+                    jp_compose(['allOf', str(index)], base=path),
+                    absolute_ref=absolute_ref))
 
     items = getattr(obj, 'items', None)
     if items:
-        ret['items'] = items_converter(items, jp_compose('items', base=path))
+        items_path = jp_compose('items', base=path)
+        ret['items'] = items_converter(
+            items, items_path) if items_converter else to_schema(
+                items, items_path, absolute_ref=absolute_ref)
 
     properties = getattr(obj, 'properties', None)
     if properties:
@@ -132,17 +149,18 @@ def to_schema(obj, path, items_converter=None):
             target[name] = to_schema(
                 prop,
                 jp_compose(['properties', name], base=path),
-                items_converter=items_converter)
+                items_converter=items_converter,
+                absolute_ref=absolute_ref)
 
     additional_properties = getattr(obj, 'additionalProperties', None)
     if isinstance(additional_properties, bool):
         if additional_properties is False:
             ret['additionalProperties'] = additional_properties
     elif additional_properties is not None:
-        ret['additionalProperties'] = to_schema(additional_properties,
-                                                jp_compose(
-                                                    'additionalProperties',
-                                                    base=path))
+        ret['additionalProperties'] = to_schema(
+            additional_properties,
+            jp_compose('additionalProperties', base=path),
+            absolute_ref=absolute_ref)
 
     discriminator = getattr(obj, 'discriminator', None)
     if discriminator:
@@ -319,8 +337,10 @@ def to_request_body(obj, existing_body, ctx, path):
 
         for type_ in content_types:
             media_type = content.setdefault(type_, {})
-            media_type['schema'] = to_schema(resolved_obj.schema,
-                                             jp_compose('schema', base=path))
+            media_type['schema'] = to_schema(
+                resolved_obj.schema,
+                jp_compose('schema', base=path),
+                absolute_ref=_is_external(obj))
     else:
         raise SchemaError(
             'invalid parameter context: {},{},{} for request body: {}'.format(
@@ -419,14 +439,18 @@ def to_response(obj, produces, path):
         type_ = getattr(resolved_obj.schema, 'type', None)
         if type_ == 'file':
             media_type = content.setdefault('application/octet-stream', {})
-            media_type['schema'] = to_schema(resolved_obj.schema,
-                                             jp_compose('schema', base=path))
+            media_type['schema'] = to_schema(
+                resolved_obj.schema,
+                jp_compose('schema', base=path),
+                absolute_ref=_is_external(obj))
         else:
             for type_ in produces:
                 content[type_] = {
                     'schema':
-                    to_schema(resolved_obj.schema,
-                              jp_compose('schema', base=path))
+                    to_schema(
+                        resolved_obj.schema,
+                        jp_compose('schema', base=path),
+                        absolute_ref=_is_external(obj))
                 }
 
     # header
-- 
2.43.0


From afdd58ad3e58d693c6f5cfd553ed2819245ab0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 43/90] fix: request bodies of operations sharing parameters of
 a path item

---
 .../v2_0/scanner/upgrade/converters.py        | 48 +++++++++++++++----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 75748f7..c3d4664 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -463,7 +463,33 @@ def to_response(obj, produces, path):
     return ret
 
 
-def to_operation(obj, body, root_url, path, produces=None, consumes=None):
+def _is_overridden(param, others):
+    """ check if a parameter from PathItem is overridden by those from
+    Operation. There is at most one body, no matter what its name is.
+    """
+    param = deref(param)
+    in_ = getattr(param, 'in', None)
+    for other in others or []:
+        other = deref(other)
+        if getattr(other, 'in', None) != in_:
+            continue
+        if in_ == 'body' or other.name == param.name:
+            return True
+    return False
+
+
+def to_operation(obj,
+                 body,
+                 root_url,
+                 path,
+                 produces=None,
+                 consumes=None,
+                 payload=None):
+    """ convert Operation object
+
+    :param payload: 'body' and 'formData' parameters from PathItem, a list of
+        (Parameter, path)
+    """
     ret = {}
     ret.update(
         _generate_fields(obj, [
@@ -480,6 +506,12 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
         # an empty one removes the requirement declared globally
         ret['security'] = obj.security.dump()
 
+    # parameters from PathItem
+    for param, param_path in payload or []:
+        if not _is_overridden(param, obj.parameters):
+            body, _ = from_parameter(param, body, obj.consumes or consumes,
+                                     param_path)
+
     # parameters
     if obj.parameters:
         parameters = None
@@ -564,17 +596,16 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         ret['$ref'] = obj.get_attrs('migration').normalized_ref
 
     # parameters
-    body = None
+    body, payload = None, []
     if obj.parameters:
         consumes, parameters = consumes or [], None
         for index, param in enumerate(obj.parameters):
+            param_path = jp_compose(['parameters', str(index)], base=path)
             new_p, pctx = from_parameter(
-                param,
-                body,
-                consumes,
-                path=jp_compose(['parameters', str(index)], base=path))
+                param, body, consumes, path=param_path)
             if pctx.is_file or pctx.is_body:
                 body = new_p
+                payload.append((param, param_path))
                 reloc['parameters/{}'.format(
                     index)] = 'x-pyopenapi_internal_request_body'
             else:
@@ -596,11 +627,12 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         if operation:
             ret[method] = to_operation(
                 operation,
-                body,
+                None,
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-                consumes=consumes)
+                consumes=consumes,
+                payload=payload)
 
     if body:
         # Valid $ref for Parameter in Swagger 2.0 should only point
-- 
2.43.0


From 4ec5fde9f9d24d14552044becaba8bd308814cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 44/90] fix: keep examples of responses when migrating to
 OpenAPI 3.0

---
 .../versions/v2_0/scanner/upgrade/converters.py      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index c3d4664..01a7734 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -453,6 +453,18 @@ def to_response(obj, produces, path):
                         absolute_ref=_is_external(obj))
                 }
 
+    # examples, their keys are mime types
+    for type_, example in six.iteritems(resolved_obj.examples or {}):
+        content = ret.setdefault('content', {})
+        if type_ not in content:
+            content[type_] = {}
+            if resolved_obj.schema:
+                content[type_]['schema'] = to_schema(
+                    resolved_obj.schema,
+                    jp_compose('schema', base=path),
+                    absolute_ref=_is_external(obj))
+        content[type_]['example'] = example
+
     # header
     if resolved_obj.headers:
         headers = ret.setdefault('headers', {})
-- 
2.43.0


From b46d4209580283cdcfe0c9b146e0e4b15869b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 45/90] fix: response codes of OpenAPI 3.0 loaded as numbers
 from yaml

---
 pyopenapi/migration/versions/v3_0_0/main.py   |  5 ++-
 .../migration/versions/v3_0_0/objects.py      |  3 +-
 .../versions/v3_0_0/scanner/__init__.py       |  1 +
 .../migration/versions/v3_0_0/scanner/yaml.py | 32 +++++++++++++++++++
 4 files changed, 39 insertions(+), 2 deletions(-)
 create mode 100644 pyopenapi/migration/versions/v3_0_0/scanner/yaml.py

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index ec50735..1945d49 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -13,7 +13,7 @@ from ..v2_0.objects import (
     Response,
     Reference,
 )
-from .scanner import Resolve, NormalizeRef, Merge
+from .scanner import Resolve, YamlFixer, NormalizeRef, Merge
 from . import objects
 
 
@@ -65,6 +65,9 @@ def upgrade(obj, app, jref):
         # phase 1: normalized $ref
         scan(root=ret, route=[NormalizeRef(url)])
 
+        # fix for yaml that treat response code as number
+        scan(root=ret, route=[YamlFixer()])
+
         # phase 2: update cache for resolving $ref to current object
         # - because the external document might reference back,
         #   we have to cache ourselves here, just in case.
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index d487c61..1086b81 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -376,6 +376,7 @@ class Response(Base2_v3_0_0):
 
 
 ResponseOrReference = if_not_ref_else(Response)
+MapOfResponseOrReference = map_(ResponseOrReference)
 
 
 class OAuthFlow(Base2_v3_0_0):
@@ -449,7 +450,7 @@ class Operation(Base2_v3_0_0):
         'tags': dict(child_builder=list_(is_str)),
         'parameters': dict(child_builder=list_(ParameterOrReference)),
         'requestBody': dict(child_builder=RequestBodyOrReference),
-        'responses': dict(child_builder=map_(ResponseOrReference)),
+        'responses': dict(child_builder=MapOfResponseOrReference),
         'security': dict(child_builder=list_(map_(list_(is_str)))),
         'servers': dict(child_builder=list_(Server)),
     }
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py b/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
index d8379f0..07aa9cf 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
 from .resolve import Resolve
+from .yaml import YamlFixer
 from .norm_ref import NormalizeRef
 from .merge import Merge
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py b/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py
new file mode 100644
index 0000000..4e1b631
--- /dev/null
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py
@@ -0,0 +1,32 @@
+# -*- coding: utf-8 -*-
+
+from __future__ import absolute_import
+import six
+
+from ....scan import Dispatcher
+from ..objects import (
+    Operation,
+    MapOfResponseOrReference,
+)
+
+
+class YamlFixer(object):
+    """ fix objects loaded by pyaml """
+
+    class Disp(Dispatcher):
+        pass
+
+    # pylint: disable=no-self-use
+    @Disp.register([Operation])
+    def _op(self, _, obj):
+        """ convert status code in Responses from int to string
+        """
+        responses = obj.responses
+        if responses is None or not any(
+                isinstance(k, six.integer_types) for k in responses.keys()):
+            return
+
+        fixed = MapOfResponseOrReference({}, responses.get_path())
+        for k, resp in six.iteritems(responses):
+            fixed[str(k) if isinstance(k, six.integer_types) else k] = resp
+        obj.attach_child('responses', fixed)
-- 
2.43.0


From c0ca8bd351c7e16b09e0a699e4602548737ff992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 46/90] fix: reject JSON pointers to what is not part of the
 document

---
 pyopenapi/migration/spec/obj.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index a6805b3..d939dc9 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -561,11 +561,17 @@ class Base2Obj(_Base):
             name = parts.pop(0)
 
             if issubclass(obj.__class__, Base2Obj):
+                if name not in obj.__fields__ and name not in obj.__children__:
+                    raise FieldNotExist('field not found: {} in {}, {}'.format(
+                        name, obj.__class__.__name__, obj.get_path()))
                 obj = getattr(obj, name)
             elif isinstance(obj, list):
                 obj = obj[int(name)]
             elif isinstance(obj, dict):
                 obj = obj[name]
+            else:
+                raise FieldNotExist('unable to resolve {} from {}, {}'.format(
+                    name, str(type(obj)), self.get_path()))
 
             if issubclass(obj.__class__, (Base2Obj, _Map, _List)) and parts:
                 return obj.resolve(parts)
-- 
2.43.0


From 7e6e64c21f040db9fcd97fe3b9989d7779a2608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 47/90] fix: forget objects that are not fully resolved when
 failed to load them

---
 pyopenapi/migration/base.py  | 32 ++++++++++++++++++++------------
 pyopenapi/migration/store.py | 22 ++++++++++++++++++++++
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 5c39fe6..2cdc59b 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -311,18 +311,26 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             # attempt to load object via input JSON pointer
             obj, j, _ = self.spec_obj_store.get_until(
                 url, jp, from_spec_version, until=to_spec_version)
-            if obj is None:
-                if from_spec_version != self.original_spec_version:
-                    raise Exception(
-                        'object is not loadable, you need to provide JSON pointer from source spec version:{}, not {}'.
-                        format(self.original_spec_version, from_spec_version))
-                obj = self.load_obj(
-                    jref, parser=parser, remove_dummy=remove_dummy)
-            else:
-                jref = url + j
-
-            obj = obj and self.migrate_obj(obj, jref, to_spec_version)
-            obj = obj and self.prepare_obj(obj, jref)
+            snapshot = self.spec_obj_store.snapshot()
+            try:
+                if obj is None:
+                    if from_spec_version != self.original_spec_version:
+                        raise Exception(
+                            'object is not loadable, you need to provide JSON pointer from source spec version:{}, not {}'.
+                            format(self.original_spec_version,
+                                   from_spec_version))
+                    obj = self.load_obj(
+                        jref, parser=parser, remove_dummy=remove_dummy)
+                else:
+                    jref = url + j
+
+                obj = obj and self.migrate_obj(obj, jref, to_spec_version)
+                obj = obj and self.prepare_obj(obj, jref)
+            except Exception:
+                # those objects loaded so far are not fully resolved,
+                # they should not be found by the next resolving.
+                self.spec_obj_store.restore(snapshot)
+                raise
 
             relocated_jp = self.spec_obj_store.relocate(
                 url, jp, from_spec_version, to_spec_version)
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index ebcd506..e4872f5 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -49,6 +49,28 @@ class SpecObjStore(object):
             obj
         })
 
+    def snapshot(self):
+        """ take a snapshot, to be able to go back to current state
+        when failed to load objects.
+        """
+        return (
+            {
+                url: {jp: dict(cache)
+                      for jp, cache in six.iteritems(url_cache)}
+                for url, url_cache in six.iteritems(self.__spec_objs)
+            },
+            {
+                url: OrderedDict(
+                    (v, dict(routes)) for v, routes in six.iteritems(url_routes))
+                for url, url_routes in six.iteritems(self.__routes)
+            },
+        )
+
+    def restore(self, snapshot):
+        """ go back to the state when 'snapshot' is taken
+        """
+        self.__spec_objs, self.__routes = snapshot
+
     def get(self, url, jp, spec_version):
         """ get spec object from cache
         """
-- 
2.43.0


From 711cc5726baf3df123b0f3ba900b89437c044e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 48/90] fix: one object for each location of documents loaded
 piece by piece

---
 pyopenapi/migration/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 2cdc59b..a9f59c3 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -179,8 +179,17 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         elif version is None and parser:
             obj = parser(src_spec, jref, {})
-            version = obj.__swagger_version__ if hasattr(
-                obj, '__swagger_version__') else version
+            if hasattr(obj, '__swagger_version__'):
+                version = obj.__swagger_version__
+                cached = self.spec_obj_store.get(url, jp, version)
+                if cached is not None:
+                    return cached
+
+                # make sure there is only one object for each location
+                override = self.spec_obj_store.get_under(
+                    url, jp, version, remove=remove_dummy)
+                if override:
+                    obj = parser(src_spec, jref, override)
         else:
             raise NotImplementedError(
                 'Unsupported Swagger Version: {0} from {1}'.format(
-- 
2.43.0


From 8cdb6974b34778344e26aad16b7a0026d908d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 49/90] fix: never modify the loaded document when a field is
 written

---
 pyopenapi/migration/spec/obj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index d939dc9..c3c38b8 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -34,6 +34,9 @@ def field(key, required=False, default=None, restricted=False, readonly=True):
         return default
 
     def _writer_(self, val):
+        # the original one is provided by users, and might be shared
+        # with other objects.
+        self.spec = dict(self.spec)
         self.spec[key] = val
 
     return property(_getter_, None if readonly else _writer_)
-- 
2.43.0


From 00d4cba3bc47289109cef6f2c772451d91fd4457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 50/90] fix: resolve JSON references to floating numbers

---
 pyopenapi/migration/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index a9f59c3..cb2fe37 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -347,7 +347,9 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         if obj is None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
 
-        if isinstance(obj, (six.string_types, six.integer_types, list, dict)):
+        if isinstance(
+                obj, six.string_types + six.integer_types +
+            (float, list, dict)):
             return obj, relocated_jp
 
         return weakref.proxy(obj), url + relocated_jp
-- 
2.43.0


From 66e963b149ac46e22f52506c2e29fb94dae77902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 51/90] fix: snake_case aliases of Swagger 2.0 objects

---
 pyopenapi/migration/versions/v2_0/objects.py | 30 ++++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index a27dccf..1ba9e82 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -86,8 +86,8 @@ class Tag(BaseObj_v2_0):
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
 
-    __renamed__ = {
-        'external_docs': dict(key='externalDocs'),
+    __internal__ = {
+        'external_docs': dict(key='externalDocs', builder=rename),
     }
 
 
@@ -113,17 +113,17 @@ class BaseSchema(BaseObj_v2_0):
         'uniqueItems': dict(),
     }
 
-    __renamed__ = {
-        'type_': dict(key='type'),
-        'format_': dict(key='format'),
-        'exclusive_maximum': dict(key='exclusiveMaximum'),
-        'exclusive_minimum': dict(key='exclusiveMinimim'),
-        'max_length': dict(key='max_length'),
-        'min_length': dict(key='min_length'),
-        'max_items': dict(key='max_items'),
-        'min_items': dict(key='min_items'),
-        'multiple_of': dict(key='multipleOf'),
-        'unique_items': dict(key='uniqueItems'),
+    __internal__ = {
+        'type_': dict(key='type', builder=rename),
+        'format_': dict(key='format', builder=rename),
+        'exclusive_maximum': dict(key='exclusiveMaximum', builder=rename),
+        'exclusive_minimum': dict(key='exclusiveMinimum', builder=rename),
+        'max_length': dict(key='maxLength', builder=rename),
+        'min_length': dict(key='minLength', builder=rename),
+        'max_items': dict(key='maxItems', builder=rename),
+        'min_items': dict(key='minItems', builder=rename),
+        'multiple_of': dict(key='multipleOf', builder=rename),
+        'unique_items': dict(key='uniqueItems', builder=rename),
     }
 
 
@@ -135,8 +135,8 @@ class Items(BaseSchema):
         'collectionFormat': dict(default='csv'),
     }
 
-    __renamed__ = {
-        'collection_format': dict(key='collectionFormat'),
+    __internal__ = {
+        'collection_format': dict(key='collectionFormat', builder=rename),
     }
 
 
-- 
2.43.0


From b8ddb77ac144e6d43b7c3409453d92f159736c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 52/90] fix: reject invalid array indices in JSON pointers

---
 pyopenapi/migration/resolve.py  | 4 ++--
 pyopenapi/migration/spec/obj.py | 6 +++---
 pyopenapi/utils.py              | 8 ++++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index acced81..459ec06 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -7,7 +7,7 @@ import logging
 
 import six
 
-from ..utils import jr_split, jp_split
+from ..utils import jr_split, jp_split, jp_index
 from .getter import UrlGetter, LocalGetter
 
 logger = logging.getLogger(__name__)
@@ -73,7 +73,7 @@ class Resolver(object):
             while parts:
                 head = parts.pop(0)
                 if isinstance(obj, list):
-                    obj = obj[int(head)]
+                    obj = obj[jp_index(head)]
                 elif isinstance(obj, dict):
                     obj = obj[head]
                 else:
diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index c3c38b8..870d94f 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -7,7 +7,7 @@ import itertools
 
 import six
 
-from ...utils import jp_compose, jp_split
+from ...utils import jp_compose, jp_split, jp_index
 from ...errs import FieldNotExist
 
 
@@ -245,7 +245,7 @@ class _List(_Base):
         obj = self
         if parts:
             idx = parts.pop(0)
-            return _resolve_elm(self.__elm[int(idx)], parts)
+            return _resolve_elm(self.__elm[jp_index(idx)], parts)
         return obj
 
     def merge_children(self, other):
@@ -569,7 +569,7 @@ class Base2Obj(_Base):
                         name, obj.__class__.__name__, obj.get_path()))
                 obj = getattr(obj, name)
             elif isinstance(obj, list):
-                obj = obj[int(name)]
+                obj = obj[jp_index(name)]
             elif isinstance(obj, dict):
                 obj = obj[name]
             else:
diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 8eb2b5d..c308e8c 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -139,6 +139,14 @@ def jp_split(jp, max_split=-1):
     return [_decode(x) for x in jp.split('/', max_split)]
 
 
+def jp_index(token):
+    """ convert a token of json-pointer to the index of an array
+    """
+    if not re.match(r'^(0|[1-9][0-9]*)\Z', token):
+        raise IndexError('invalid array index: {}'.format(token))
+    return int(token)
+
+
 def jr_split(json_ref):
     """ split a json-reference into (url, json-pointer)
     """
-- 
2.43.0


From 3567641e63bcdd8acce4a936333a859c07445f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 53/90] fix: resolve JSON pointers into values inside maps and
 lists

---
 pyopenapi/migration/spec/obj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 870d94f..5836852 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -175,8 +175,11 @@ class _Base(object):
 
 def _resolve_elm(elm, parts):
     """ keep resolving from an element of containers, which might be
-    a primitive without 'resolve'.
+    a value without 'resolve'.
     """
+    while parts and isinstance(elm, (list, dict)):
+        key = parts.pop(0)
+        elm = elm[key if isinstance(elm, dict) else jp_index(key)]
     if not parts:
         return elm
     if not hasattr(elm, 'resolve'):
-- 
2.43.0


From a0cd026f5cab4a6bb6be0da527fe8d3f7a5955cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 54/90] revert: leave pyopenapi/migration/spec untouched

---
 pyopenapi/migration/spec/obj.py | 112 +++++++++++++++-----------------
 1 file changed, 51 insertions(+), 61 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 5836852..bd81c0a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -7,7 +7,7 @@ import itertools
 
 import six
 
-from ...utils import jp_compose, jp_split, jp_index
+from ...utils import jp_compose, jp_split
 from ...errs import FieldNotExist
 
 
@@ -34,9 +34,6 @@ def field(key, required=False, default=None, restricted=False, readonly=True):
         return default
 
     def _writer_(self, val):
-        # the original one is provided by users, and might be shared
-        # with other objects.
-        self.spec = dict(self.spec)
         self.spec[key] = val
 
     return property(_getter_, None if readonly else _writer_)
@@ -138,6 +135,8 @@ class _Base(object):
         # inside 'override':
         #   (first token of jp_split) => (reminder of jp_split, value)
 
+        self.children_cache = {}
+
         # setup override
         for k, val in six.iteritems(override or {}):
             tokens = jp_split(k, 1)
@@ -159,6 +158,15 @@ class _Base(object):
         """
         return k in self.spec
 
+    def get_children_cache(self):
+        return self.children_cache
+
+    def invalidate_children_cache(self):
+        self.children_cache = {}
+
+    def update_children_cache(self, cache):
+        self.children_cache = cache
+
     def get_parent(self):
         """ get parent object
         :return: the parent object.
@@ -173,21 +181,6 @@ class _Base(object):
         return self.__path
 
 
-def _resolve_elm(elm, parts):
-    """ keep resolving from an element of containers, which might be
-    a value without 'resolve'.
-    """
-    while parts and isinstance(elm, (list, dict)):
-        key = parts.pop(0)
-        elm = elm[key if isinstance(elm, dict) else jp_index(key)]
-    if not parts:
-        return elm
-    if not hasattr(elm, 'resolve'):
-        raise FieldNotExist('unable to resolve {} from {}'.format(
-            parts, str(type(elm))))
-    return elm.resolve(parts)
-
-
 def list_(builder):
     """ class factory for _Map, would create a new class based on _List
     and assign __child_class__
@@ -248,7 +241,7 @@ class _List(_Base):
         obj = self
         if parts:
             idx = parts.pop(0)
-            return _resolve_elm(self.__elm[jp_index(idx)], parts)
+            return self.__elm[int(idx)].resolve(parts)
         return obj
 
     def merge_children(self, other):
@@ -264,10 +257,8 @@ class _List(_Base):
 
         for idx, (self_, other_) in enumerate(zip(self, other)):
             new_base = jp_compose(str(idx), base=base)
-            if not hasattr(self_, 'compare'):
-                if self_ != other_:
-                    return False, new_base
-                continue
+            if isinstance(self_, six.string_types + six.integer_types):
+                return self_ == other_, new_base
 
             same, name = self_.compare(other_, base=new_base)
             if not same:
@@ -293,7 +284,10 @@ class _List(_Base):
         return []
 
     def get_children(self):
-        ret = {}
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
         for idx, obj in enumerate(self.__elm):
             if isinstance(obj, Base2Obj):
                 ret[str(idx)] = obj
@@ -303,9 +297,9 @@ class _List(_Base):
             )):
                 children = obj.get_children()
                 for name in children:
-                    # children's names are already encoded
-                    ret['/'.join([str(idx), name])] = children[name]
+                    ret[jp_compose([str(idx), name])] = children[name]
 
+        self.update_children_cache(ret)
         return ret
 
     def __iter__(self):
@@ -322,13 +316,14 @@ class _List(_Base):
         return self.__elm == other
 
     def append(self, obj):
-        if hasattr(obj, 'set_parent'):
-            obj.set_parent(self)
+        self.invalidate_children_cache()
+
         return self.__elm.append(obj)
 
     def extend(self, other):
-        for obj in list(other):
-            self.append(obj)
+        self.invalidate_children_cache()
+
+        return self.__elm.extend(other)
 
 
 def map_(builder):
@@ -393,7 +388,7 @@ class _Map(_Base):
         obj = self
         if parts:
             key = parts.pop(0)
-            return _resolve_elm(self.__elm[key], parts)
+            return self.__elm[key].resolve(parts)
         return obj
 
     def merge_children(self, other):
@@ -413,10 +408,9 @@ class _Map(_Base):
 
         for name in self.__elm:
             new_base = jp_compose(name, base=base)
-            if not hasattr(self.__elm[name], 'compare'):
-                if self.__elm[name] != other[name]:
-                    return False, new_base
-                continue
+            if isinstance(self.__elm[name],
+                          six.string_types + six.integer_types):
+                return self.__elm[name] == other[name], new_base
 
             same, name = self.__elm[name].compare(other[name], base=new_base)
             if not same:
@@ -442,9 +436,11 @@ class _Map(_Base):
         return self.__elm.keys()
 
     def get_children(self):
-        ret = {}
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
         for name, obj in six.iteritems(self.__elm):
-            name = jp_compose(str(name))
             if isinstance(obj, Base2Obj):
                 ret[name] = obj
             elif isinstance(obj, (
@@ -453,17 +449,17 @@ class _Map(_Base):
             )):
                 children = obj.get_children()
                 for key in children:
-                    # children's names are already encoded
-                    ret['/'.join([name, key])] = children[key]
+                    ret[jp_compose([name, key])] = children[key]
 
+        self.update_children_cache(ret)
         return ret
 
     def __getitem__(self, key):
         return self.__elm[key]
 
     def __setitem__(self, key, obj):
-        if hasattr(obj, 'set_parent'):
-            obj.set_parent(self)
+        self.invalidate_children_cache()
+
         self.__elm[key] = obj
 
     def __contains__(self, elm):
@@ -552,7 +548,7 @@ class Base2Obj(_Base):
         for name in self.__children__:
             # trigger the getter of children, it will create it if exist
             chd = getattr(self, name)
-            if hasattr(chd, 'set_parent'):
+            if chd and hasattr(chd, 'set_parent'):
                 chd.set_parent(self)
 
     def resolve(self, parts):
@@ -567,17 +563,11 @@ class Base2Obj(_Base):
             name = parts.pop(0)
 
             if issubclass(obj.__class__, Base2Obj):
-                if name not in obj.__fields__ and name not in obj.__children__:
-                    raise FieldNotExist('field not found: {} in {}, {}'.format(
-                        name, obj.__class__.__name__, obj.get_path()))
                 obj = getattr(obj, name)
             elif isinstance(obj, list):
-                obj = obj[jp_index(name)]
+                obj = obj[int(name)]
             elif isinstance(obj, dict):
                 obj = obj[name]
-            else:
-                raise FieldNotExist('unable to resolve {} from {}, {}'.format(
-                    name, str(type(obj)), self.get_path()))
 
             if issubclass(obj.__class__, (Base2Obj, _Map, _List)) and parts:
                 return obj.resolve(parts)
@@ -593,6 +583,8 @@ class Base2Obj(_Base):
                 if obj:
                     setattr(self, name, obj)
 
+        self.invalidate_children_cache()
+
     def compare(self, other, base=None):
         """ comparison, will return the first difference, mainly used for testing """
 
@@ -610,8 +602,6 @@ class Base2Obj(_Base):
             if isinstance(self_, (Base2Obj, _Map, _List)):
                 return self_.compare(other_, base=name)
             if isinstance(self_, list):
-                if len(self_) != len(other_):
-                    return False, name
                 for i, elm in zip(range(len(self_)), self_):
                     same, location = _cmp_(
                         jp_compose(str(i), name), elm, other_[i])
@@ -657,12 +647,7 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if isinstance(child_, bool):
-                # ex. additionalProperties
-                ret[name] = child_
-                fields.discard(name)
-            elif child_ or (child_ is not None
-                            and self.__children__[name].get('required')):
+            if child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
@@ -689,6 +674,8 @@ class Base2Obj(_Base):
         if hasattr(obj, 'set_parent'):
             obj.set_parent(self)
 
+        self.invalidate_children_cache()
+
     @classmethod
     def attach_field(cls, name, **field_descriptor):
         desc = copy.copy(field_descriptor)
@@ -712,7 +699,10 @@ class Base2Obj(_Base):
         """ get children objects
         :rtype: a dict of children {child_name: child_object}
         """
-        ret = {}
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
         for name in self.__children__:
             obj = getattr(self, name)
             if not obj:
@@ -725,9 +715,9 @@ class Base2Obj(_Base):
             )):
                 children = obj.get_children()
                 for child_name in children:
-                    # children's names are already encoded
-                    ret['/'.join([name, child_name])] = children[child_name]
+                    ret[jp_compose([name, child_name])] = children[child_name]
 
+        self.update_children_cache(ret)
         return ret
 
     def get_attrs(self, namespace, group_cls=None):
-- 
2.43.0


From 99f4c22fb8e39beb635d2ab9e8f99f3cc3f70d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 55/90] fix: response codes loaded as numbers from yaml

---
 pyopenapi/migration/versions/v2_0/objects.py  | 15 ++++++++-
 pyopenapi/migration/versions/v3_0_0/main.py   |  5 +--
 .../migration/versions/v3_0_0/objects.py      | 15 ++++++++-
 .../versions/v3_0_0/scanner/__init__.py       |  1 -
 .../migration/versions/v3_0_0/scanner/yaml.py | 32 -------------------
 5 files changed, 29 insertions(+), 39 deletions(-)
 delete mode 100644 pyopenapi/migration/versions/v3_0_0/scanner/yaml.py

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 1ba9e82..3b79294 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -282,7 +282,20 @@ class Response(BaseObj_v2_0):
 
 
 ResponseOrReference = if_not_ref_else(Response)
-MapOfResponseOrReference = map_(ResponseOrReference)
+
+
+class MapOfResponseOrReference(map_(ResponseOrReference)):
+    """ Responses Object, status codes are always strings, even when
+    they are loaded as numbers from yaml.
+    """
+
+    def __init__(self, spec, path=None, override=None):
+        if isinstance(spec, dict):
+            spec = {
+                str(k) if isinstance(k, six.integer_types) else k: val
+                for k, val in six.iteritems(spec)
+            }
+        super(MapOfResponseOrReference, self).__init__(spec, path, override)
 
 
 class Operation(BaseObj_v2_0):
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 1945d49..ec50735 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -13,7 +13,7 @@ from ..v2_0.objects import (
     Response,
     Reference,
 )
-from .scanner import Resolve, YamlFixer, NormalizeRef, Merge
+from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
 
 
@@ -65,9 +65,6 @@ def upgrade(obj, app, jref):
         # phase 1: normalized $ref
         scan(root=ret, route=[NormalizeRef(url)])
 
-        # fix for yaml that treat response code as number
-        scan(root=ret, route=[YamlFixer()])
-
         # phase 2: update cache for resolving $ref to current object
         # - because the external document might reference back,
         #   we have to cache ourselves here, just in case.
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 1086b81..01dd456 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -376,7 +376,20 @@ class Response(Base2_v3_0_0):
 
 
 ResponseOrReference = if_not_ref_else(Response)
-MapOfResponseOrReference = map_(ResponseOrReference)
+
+
+class MapOfResponseOrReference(map_(ResponseOrReference)):
+    """ Responses Object, status codes are always strings, even when
+    they are loaded as numbers from yaml.
+    """
+
+    def __init__(self, spec, path=None, override=None):
+        if isinstance(spec, dict):
+            spec = {
+                str(k) if isinstance(k, six.integer_types) else k: val
+                for k, val in six.iteritems(spec)
+            }
+        super(MapOfResponseOrReference, self).__init__(spec, path, override)
 
 
 class OAuthFlow(Base2_v3_0_0):
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py b/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
index 07aa9cf..d8379f0 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/__init__.py
@@ -1,6 +1,5 @@
 # -*- coding: utf-8 -*-
 
 from .resolve import Resolve
-from .yaml import YamlFixer
 from .norm_ref import NormalizeRef
 from .merge import Merge
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py b/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py
deleted file mode 100644
index 4e1b631..0000000
--- a/pyopenapi/migration/versions/v3_0_0/scanner/yaml.py
+++ /dev/null
@@ -1,32 +0,0 @@
-# -*- coding: utf-8 -*-
-
-from __future__ import absolute_import
-import six
-
-from ....scan import Dispatcher
-from ..objects import (
-    Operation,
-    MapOfResponseOrReference,
-)
-
-
-class YamlFixer(object):
-    """ fix objects loaded by pyaml """
-
-    class Disp(Dispatcher):
-        pass
-
-    # pylint: disable=no-self-use
-    @Disp.register([Operation])
-    def _op(self, _, obj):
-        """ convert status code in Responses from int to string
-        """
-        responses = obj.responses
-        if responses is None or not any(
-                isinstance(k, six.integer_types) for k in responses.keys()):
-            return
-
-        fixed = MapOfResponseOrReference({}, responses.get_path())
-        for k, resp in six.iteritems(responses):
-            fixed[str(k) if isinstance(k, six.integer_types) else k] = resp
-        obj.attach_child('responses', fixed)
-- 
2.43.0


From cc80a0b00346048a3beaf7be8423f6775c9f7079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 56/90] fix: never modify the loaded document when a field is
 written

---
 pyopenapi/migration/versions/v2_0/objects.py   | 6 ++++++
 pyopenapi/migration/versions/v3_0_0/objects.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 3b79294..8f8cd40 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -39,6 +39,12 @@ def if_not_bool_else(class_builder):
 class BaseObj_v2_0(Base2):
     __swagger_version__ = '2.0'
 
+    def __init__(self, spec, path=None, override=None):
+        # some fields are writable, ex. '$ref'. The loaded document is
+        # owned by users, and should never be modified.
+        super(BaseObj_v2_0, self).__init__(
+            dict(spec) if isinstance(spec, dict) else spec, path, override)
+
 
 class Reference(BaseObj_v2_0):
     """ $ref
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 01dd456..1138ec6 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -10,6 +10,12 @@ from ...spec import Base2, rename, child, list_, map_
 class Base2_v3_0_0(Base2):
     __swagger_version__ = '3.0.0'
 
+    def __init__(self, spec, path=None, override=None):
+        # some fields are writable, ex. '$ref'. The loaded document is
+        # owned by users, and should never be modified.
+        super(Base2_v3_0_0, self).__init__(
+            dict(spec) if isinstance(spec, dict) else spec, path, override)
+
 
 class Reference(Base2_v3_0_0):
     __fields__ = {
-- 
2.43.0


From 1e19a0aa14f0fd460992ee2bf84adb6e98fa98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 57/90] fix: keep the rest of a JSON pointer encoded when it is
 partially splitted

---
 pyopenapi/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index c308e8c..f3cf0cd 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -136,7 +136,11 @@ def jp_split(jp, max_split=-1):
         x = x.replace('~1', '/')
         return x.replace('~0', '~')
 
-    return [_decode(x) for x in jp.split('/', max_split)]
+    tokens = jp.split('/', max_split)
+    if 0 <= max_split < len(tokens):
+        # the last one is what's not splitted yet
+        return [_decode(x) for x in tokens[:-1]] + tokens[-1:]
+    return [_decode(x) for x in tokens]
 
 
 def jp_index(token):
-- 
2.43.0


From ada1cc3d69edb0ba09f356be6266d21487871313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 58/90] fix: keep empty tokens when relocating JSON pointers

---
 pyopenapi/migration/store.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index e4872f5..f857151 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -199,11 +199,11 @@ class SpecObjStore(object):
             # a qualified JSON pointer
             new_jp = fixed_prefix + '/' + patch_to
 
-        remain = jp[len(fixed_prefix + patch_from) + 1:]  # +1 for '/'
-        if remain:
-            new_jp += ('' if new_jp.endswith('/') or remain.startswith('/') else
-                       '/') + remain
-        return new_jp
+        # what's left is either empty, or started with '/'
+        remain = jp[len('/'.join([x for x in (fixed_prefix, patch_from) if x])):]
+        if new_jp.endswith('/') and remain.startswith('/'):
+            remain = remain[1:]
+        return new_jp + remain
 
     def relocate(self, url, jp, from_spec, to_spec=None):
         """ $ref relocation
-- 
2.43.0


From 86b47649a360a3be5f6cf0d8ab50f79dbe80bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 59/90] fix: migrate schemas of other documents that are
 references

---
 pyopenapi/migration/versions/v3_0_0/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index ec50735..0aa75f1 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -37,7 +37,7 @@ def upgrade(obj, app, jref):
             ret = objects.Info(
                 converters.to_info(ret, jp), path=jp, override=override)
         elif isinstance(ret, Schema):
-            ret = objects.Schema(
+            ret = objects.SchemaOrReference(
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
-- 
2.43.0


From b99397a7e7d9eeed6d69173ecb64f3ed31ab6585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 60/90] fix: keep references from other documents when they are
 reached by several references

---
 .../versions/v2_0/scanner/upgrade/converters.py  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 01a7734..2ab4383 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -20,10 +20,20 @@ def _generate_fields(obj, names):
 
 
 def _is_external(obj):
-    """ check if this object is a reference to another document
+    """ check if this object is a reference (or a chain of references) to
+    another document
     """
-    ref = getattr(obj, '$ref', None)
-    return bool(ref) and not ref.startswith('#')
+    while obj is not None:
+        ref = getattr(obj, '$ref', None)
+        if not ref:
+            break
+        if not ref.startswith('#'):
+            return True
+
+        attrs = obj.get_attrs('migration')
+        obj = attrs.ref_obj if attrs else None
+
+    return False
 
 
 def to_style_and_explode(collection_format, in_, type_, path):
-- 
2.43.0


From 76657d74d9c8008d685b95cefd98f30abc8d8a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 61/90] fix: leave references of documents not prepared yet to
 be resolved later

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py  |  6 ++++--
 .../migration/versions/v3_0_0/scanner/resolve.py      | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 34f48a7..13ee4c4 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -49,8 +49,10 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     attrs.ref_obj = resolved
 
-    # the referenced one might be nothing but another reference
-    if isinstance(resolved, Reference):
+    # the referenced one might be nothing but another reference,
+    # which is left to its own document when that one is not prepared yet.
+    if isinstance(resolved, Reference) and resolved.get_attrs(
+            'migration', attr_group_cls).normalized_ref:
         _resolve(resolved, expected, attr_group_cls, app, path)
 
 
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 604da2d..334ea6c 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -69,10 +69,13 @@ def _resolve(obj, expected, app, path):
     attrs.normalized_ref = new_ref
     attrs.ref_obj = resolved
 
-    # the referenced one might be nothing but another reference
-    if isinstance(resolved, Reference) and resolved.get_attrs(
-            'migration', ReferenceAttributeGroup).ref_obj is None:
-        _resolve(resolved, expected, app, path)
+    # the referenced one might be nothing but another reference,
+    # which is left to its own document when that one is not prepared yet.
+    if isinstance(resolved, Reference):
+        resolved_attrs = resolved.get_attrs('migration',
+                                            ReferenceAttributeGroup)
+        if resolved_attrs.normalized_ref and resolved_attrs.ref_obj is None:
+            _resolve(resolved, expected, app, path)
 
 
 class Resolve(object):
-- 
2.43.0


From 4e9922ff226f440e85148fcf57b4eaa03e800514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 62/90] fix: references through response codes loaded as
 numbers from yaml

---
 pyopenapi/migration/resolve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index 459ec06..2c16f59 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -75,6 +75,9 @@ class Resolver(object):
                 if isinstance(obj, list):
                     obj = obj[jp_index(head)]
                 elif isinstance(obj, dict):
+                    if head not in obj and head.isdigit() and int(head) in obj:
+                        # response codes are loaded as numbers from yaml
+                        head = int(head)
                     obj = obj[head]
                 else:
                     raise Exception(
-- 
2.43.0


From ae98fd72123a83df2c45092212189943a9543d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 63/90] fix: load local files in folders named as files

---
 pyopenapi/migration/getter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 11b533d..5676970 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -114,7 +114,9 @@ class LocalGetter(Getter):
     def load(self, path):
         logger.info('to load: [%s]', path)
 
-        path = patch_path(self.base_path, path)
+        # a folder might be named as a file, ex. 'v1.yaml/swagger.json'
+        if not os.path.isfile(path):
+            path = patch_path(self.base_path, path)
         logger.info('final path to load: [%s]', path)
 
         ret = None
-- 
2.43.0


From 2d61cbc72941377a68ebe90db1fe3c6c85ac0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 64/90] fix: media types and servers of path items kept in
 other documents

---
 pyopenapi/migration/versions/v3_0_0/main.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 0aa75f1..4b5558a 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -40,7 +40,16 @@ def upgrade(obj, app, jref):
             ret = objects.SchemaOrReference(
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
-            migrated, reloc = converters.to_path_item(ret, url, jp)
+            # what is declared globally also applies to path items
+            # kept in other documents
+            root = app.spec_obj_store.get(app.url, '#', '2.0')
+            migrated, reloc = converters.to_path_item(
+                ret,
+                converters.from_swagger_to_servers(root, '#')[0]['url']
+                if root else '',
+                jp,
+                consumes=root.consumes if root else None,
+                produces=root.produces if root else None)
             ret = objects.PathItem(migrated, path=jp, override=override)
         elif isinstance(ret, Parameter):
             migrated, pctx = converters.from_parameter(ret, None, None, jp)
-- 
2.43.0


From dfafd61119b84ccb59c7ca41bcd0c269f0175867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 65/90] fix: keep empty description of external documentation
 when upgrading from 2.0

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 2ab4383..521e55a 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -93,8 +93,7 @@ def to_xml(obj, _):
 def to_external_docs(obj, _):
     ret = {}
     ret['url'] = obj.url
-    if obj.description:
-        ret['description'] = obj.description
+    ret.update(_generate_fields(obj, ['description']))
 
     return ret
 
-- 
2.43.0


From 7345c8bfa9baf7fff5223c5b6bf2249fc07af840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 66/90] fix: empty consumes and produces of operations override
 the global ones

---
 .../versions/v2_0/scanner/upgrade/converters.py    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 521e55a..da9ef37 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -527,19 +527,23 @@ def to_operation(obj,
         # an empty one removes the requirement declared globally
         ret['security'] = obj.security.dump()
 
+    # an empty one removes what is declared globally
+    if obj.consumes is not None:
+        consumes = obj.consumes
+    if obj.produces is not None:
+        produces = obj.produces
+
     # parameters from PathItem
     for param, param_path in payload or []:
         if not _is_overridden(param, obj.parameters):
-            body, _ = from_parameter(param, body, obj.consumes or consumes,
-                                     param_path)
+            body, _ = from_parameter(param, body, consumes, param_path)
 
     # parameters
     if obj.parameters:
         parameters = None
         for index, param in enumerate(obj.parameters):
             new_path = jp_compose(['parameters', str(index)], base=path)
-            new_p, pctx = from_parameter(param, body, obj.consumes or consumes,
-                                         new_path)
+            new_p, pctx = from_parameter(param, body, consumes, new_path)
             if pctx.is_body:
                 body = new_p
             else:
@@ -554,7 +558,7 @@ def to_operation(obj,
     if obj.responses:
         responses = ret.setdefault('responses', {})
         for k, resp in six.iteritems(obj.responses):
-            responses[k] = to_response(resp, obj.produces or produces,
+            responses[k] = to_response(resp, produces,
                                        jp_compose(['responses', k], base=path))
 
     # externalDocs
-- 
2.43.0


From c0ecd2fc38715d8364c4a96f602fc55067150ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 67/90] fix: refuse to migrate objects to an older version

---
 pyopenapi/migration/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index cb2fe37..7c06906 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -219,6 +219,10 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             raise ValueError(
                 'unsupported spec version: {}'.format(spec_version))
 
+        if StrictVersion(obj.__swagger_version__) > StrictVersion(spec_version):
+            raise ValueError('unable to migrate from {} to {}: {}'.format(
+                obj.__swagger_version__, spec_version, jref))
+
         # only keep required version strings for this migration
         supported_versions = supported_versions[:(
             supported_versions.index(spec_version) + 1)]
-- 
2.43.0


From 3d7f7f3cad08509f35b94a2c748489874e6ca674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 68/90] fix: empty authorizations of 1.2 operations remove
 those of the declaration

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index bf57107..5f34e9c 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -178,8 +178,11 @@ def convert_operation(obj, api, api_decl, swagger, sep):
         parameters.append(convert_parameter(param, scope, sep))
 
     # if there is not authorizations in this operation,
-    # looking for it in api-declaration object.
-    _auth = obj.authorizations if obj.authorizations else api_decl.authorizations
+    # looking for it in api-declaration object. (an empty one
+    # removes those from api-declaration object)
+    _auth = obj.authorizations
+    if _auth is None:
+        _auth = api_decl.authorizations
     if _auth:
         op_spec['security'] = []
         for name, scopes in six.iteritems(_auth):
-- 
2.43.0


From b921a0a063916f128fdc70fa6710eab6fc7f1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 69/90] fix: keep all digits of minimum and maximum of 1.2
 integers

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 5f34e9c..9b58195 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -51,8 +51,11 @@ def convert_min_max(dst, src):
         if val is not None and val != '':
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst[name] = int(float(val))
+                # that's why we need to convert to float for them
+                try:
+                    dst[name] = int(val)
+                except ValueError:
+                    dst[name] = int(float(val))
             elif src.type == 'number':
                 dst[name] = float(val)
             else:
-- 
2.43.0


From d55bb9f9bccc87af4f1dbb73eb90a7b10f261111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 70/90] fix: migrating in several threads fails to load
 migration modules

---
 pyopenapi/migration/base.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 7c06906..465a2b5 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -3,8 +3,8 @@
 from __future__ import absolute_import
 
 import abc
+import importlib
 import logging
-import pkgutil
 import weakref
 import os
 from distutils.version import StrictVersion  # pylint: disable=no-name-in-module,import-error
@@ -240,15 +240,9 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             patched_version = 'v{}'.format(version).replace('.', '_')
             migration_module_path = '.'.join(
                 ['pyopenapi', 'migration', 'versions', patched_version, 'main'])
-            loader = pkgutil.find_loader(migration_module_path)
-            if not loader:
-                raise Exception('unable to find module loader for {}'.format(
-                    migration_module_path))
-
-            migration_module = loader.load_module(migration_module_path)
-            if not migration_module:
-                raise Exception('unable to load {} for migration'.format(
-                    migration_module_path))
+            # those modules should not be executed again for each migration,
+            # other threads might be importing them.
+            migration_module = importlib.import_module(migration_module_path)
 
             # preform migration
             obj, reloc = migration_module.upgrade(obj, self, jref)
-- 
2.43.0


From bc837ec69e77eb1df92532129350f3af4b517f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 71/90] fix: what is fetched but not a document stays in the
 cache of resolver

---
 pyopenapi/migration/resolve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index 2c16f59..b7cd856 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -66,6 +66,10 @@ class Resolver(object):
                 getter = getter(local_url)
 
             obj = six.advance_iterator(getter)
+            if obj and not isinstance(obj, (dict, list)):
+                # ex. an error page, it should not be cached
+                raise Exception('Not a document: {0}'.format(jref))
+
             self.__cache[url] = obj if obj else None
 
         if obj:
-- 
2.43.0


From d323b73c514227bfd1e9784678561cb34ba1d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 72/90] fix: unable to migrate again after a failed migration

---
 pyopenapi/migration/base.py | 61 +++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 465a2b5..a85f742 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -236,33 +236,40 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         # load migration module
         url, relocated_jp = utils.jr_split(jref)
         from_spec_version = obj.__swagger_version__
-        for version in supported_versions:
-            patched_version = 'v{}'.format(version).replace('.', '_')
-            migration_module_path = '.'.join(
-                ['pyopenapi', 'migration', 'versions', patched_version, 'main'])
-            # those modules should not be executed again for each migration,
-            # other threads might be importing them.
-            migration_module = importlib.import_module(migration_module_path)
-
-            # preform migration
-            obj, reloc = migration_module.upgrade(obj, self, jref)
-
-            # update route for object relocation
-            self.spec_obj_store.update_routes(url, version,
-                                              {relocated_jp: reloc})
-
-            # update JSON pointer for next round
-            relocated_jp = self.spec_obj_store.relocate(
-                url, relocated_jp, from_spec_version, version)
-
-            # prepare this object if needy
-            obj = self.prepare_obj(obj, url + relocated_jp)
-
-            # cache migrated and prepared object if we need it later
-            self.spec_obj_store.set(
-                obj, url, relocated_jp, spec_version=version)
-
-            from_spec_version = version
+        snapshot = self.spec_obj_store.snapshot()
+        try:
+            for version in supported_versions:
+                patched_version = 'v{}'.format(version).replace('.', '_')
+                migration_module_path = '.'.join(
+                    ['pyopenapi', 'migration', 'versions', patched_version, 'main'])
+                # those modules should not be executed again for each migration,
+                # other threads might be importing them.
+                migration_module = importlib.import_module(migration_module_path)
+
+                # preform migration
+                obj, reloc = migration_module.upgrade(obj, self, jref)
+
+                # update route for object relocation
+                self.spec_obj_store.update_routes(url, version,
+                                                  {relocated_jp: reloc})
+
+                # update JSON pointer for next round
+                relocated_jp = self.spec_obj_store.relocate(
+                    url, relocated_jp, from_spec_version, version)
+
+                # prepare this object if needy
+                obj = self.prepare_obj(obj, url + relocated_jp)
+
+                # cache migrated and prepared object if we need it later
+                self.spec_obj_store.set(
+                    obj, url, relocated_jp, spec_version=version)
+
+                from_spec_version = version
+        except Exception:
+            # those objects migrated so far should not be found when
+            # migrating this object again.
+            self.spec_obj_store.restore(snapshot)
+            raise
 
         if isinstance(obj, (OpenApi, Swagger, ResourceListing)):
             self.__current_spec_version = spec_version
-- 
2.43.0


From 54be6866f8939f2815f2bd4880a41ac2df7e9e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 73/90] fix: unable to migrate Swagger 2.0 again after a failed
 migration

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 13ee4c4..76179dd 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -29,10 +29,9 @@ def _resolve(obj, expected, attr_group_cls, app, path):
         raise SchemaError('attemp to resolve invalid object: {} in {}'.format(
             str(type(obj)), path))
 
+    # no matter it's resolved or not, the resolved one might be dropped
+    # when failed to migrate this document last time.
     attrs = obj.get_attrs('migration', attr_group_cls)
-    if attrs.ref_obj:
-        return
-
     if not attrs.normalized_ref:
         raise JsonReferenceError('empty normalized_ref for {} in {}'.format(
             obj.ref, path))
@@ -51,9 +50,10 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     # the referenced one might be nothing but another reference,
     # which is left to its own document when that one is not prepared yet.
-    if isinstance(resolved, Reference) and resolved.get_attrs(
-            'migration', attr_group_cls).normalized_ref:
-        _resolve(resolved, expected, attr_group_cls, app, path)
+    if isinstance(resolved, Reference):
+        resolved_attrs = resolved.get_attrs('migration', attr_group_cls)
+        if resolved_attrs.normalized_ref and resolved_attrs.ref_obj is None:
+            _resolve(resolved, expected, attr_group_cls, app, path)
 
 
 class Resolve(object):
-- 
2.43.0


From 018fe2f4e3a8a27fee623564abcd7c2652b64fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 74/90] fix: objects dropped when failed to load are still
 referenced by others

---
 pyopenapi/migration/base.py                   | 16 +----
 pyopenapi/migration/store.py                  | 60 +++++++++++++------
 .../versions/v2_0/scanner/resolve.py          | 14 ++---
 .../versions/v3_0_0/scanner/resolve.py        | 10 +---
 4 files changed, 53 insertions(+), 47 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index a85f742..af2fdf2 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -236,8 +236,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         # load migration module
         url, relocated_jp = utils.jr_split(jref)
         from_spec_version = obj.__swagger_version__
-        snapshot = self.spec_obj_store.snapshot()
-        try:
+        with self.spec_obj_store.transaction():
             for version in supported_versions:
                 patched_version = 'v{}'.format(version).replace('.', '_')
                 migration_module_path = '.'.join(
@@ -265,11 +264,6 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                     obj, url, relocated_jp, spec_version=version)
 
                 from_spec_version = version
-        except Exception:
-            # those objects migrated so far should not be found when
-            # migrating this object again.
-            self.spec_obj_store.restore(snapshot)
-            raise
 
         if isinstance(obj, (OpenApi, Swagger, ResourceListing)):
             self.__current_spec_version = spec_version
@@ -325,8 +319,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             # attempt to load object via input JSON pointer
             obj, j, _ = self.spec_obj_store.get_until(
                 url, jp, from_spec_version, until=to_spec_version)
-            snapshot = self.spec_obj_store.snapshot()
-            try:
+            with self.spec_obj_store.transaction():
                 if obj is None:
                     if from_spec_version != self.original_spec_version:
                         raise Exception(
@@ -340,11 +333,6 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
                 obj = obj and self.migrate_obj(obj, jref, to_spec_version)
                 obj = obj and self.prepare_obj(obj, jref)
-            except Exception:
-                # those objects loaded so far are not fully resolved,
-                # they should not be found by the next resolving.
-                self.spec_obj_store.restore(snapshot)
-                raise
 
             relocated_jp = self.spec_obj_store.relocate(
                 url, jp, from_spec_version, to_spec_version)
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index f857151..a0ee5ce 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 import logging
 import os
 from collections import OrderedDict
+from contextlib import contextmanager
 from distutils.version import StrictVersion  # pylint: disable=no-name-in-module,import-error
 
 import six
@@ -28,6 +29,9 @@ class SpecObjStore(object):
     def __init__(self, migratable_spec_versions=None):
         self.__spec_objs = {}
         self.__routes = {}
+        # what should be undone when failed
+        self.__updates = []
+        self.__transactions = 0
         self.__migratable_spec_versions = False \
             or migratable_spec_versions \
             or utils.get_supported_versions(os.path.join('migration', 'versions'), is_pkg=True)
@@ -49,27 +53,45 @@ class SpecObjStore(object):
             obj
         })
 
-    def snapshot(self):
-        """ take a snapshot, to be able to go back to current state
-        when failed to load objects.
+    @contextmanager
+    def transaction(self):
+        """ everything done to this store and through 'update' would be
+        undone when failed, those objects loaded so far are not fully
+        resolved and should not be found later.
         """
-        return (
-            {
-                url: {jp: dict(cache)
-                      for jp, cache in six.iteritems(url_cache)}
-                for url, url_cache in six.iteritems(self.__spec_objs)
-            },
-            {
-                url: OrderedDict(
-                    (v, dict(routes)) for v, routes in six.iteritems(url_routes))
-                for url, url_routes in six.iteritems(self.__routes)
-            },
-        )
-
-    def restore(self, snapshot):
-        """ go back to the state when 'snapshot' is taken
+        spec_objs = {
+            url: {jp: dict(cache)
+                  for jp, cache in six.iteritems(url_cache)}
+            for url, url_cache in six.iteritems(self.__spec_objs)
+        }
+        routes = {
+            url: OrderedDict(
+                (v, dict(routes)) for v, routes in six.iteritems(url_routes))
+            for url, url_routes in six.iteritems(self.__routes)
+        }
+        updated = len(self.__updates)
+        self.__transactions += 1
+        try:
+            yield
+        except BaseException:
+            self.__spec_objs, self.__routes = spec_objs, routes
+            while len(self.__updates) > updated:
+                obj, name, value = self.__updates.pop()
+                setattr(obj, name, value)
+            raise
+        finally:
+            self.__transactions -= 1
+            if not self.__transactions:
+                del self.__updates[:]
+
+    def update(self, obj, **kwargs):
+        """ update attributes of 'obj', and be able to undo that when
+        failed to load or migrate objects.
         """
-        self.__spec_objs, self.__routes = snapshot
+        for name, value in six.iteritems(kwargs):
+            if self.__transactions:
+                self.__updates.append((obj, name, getattr(obj, name)))
+            setattr(obj, name, value)
 
     def get(self, url, jp, spec_version):
         """ get spec object from cache
diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 76179dd..52e7148 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -29,9 +29,10 @@ def _resolve(obj, expected, attr_group_cls, app, path):
         raise SchemaError('attemp to resolve invalid object: {} in {}'.format(
             str(type(obj)), path))
 
-    # no matter it's resolved or not, the resolved one might be dropped
-    # when failed to migrate this document last time.
     attrs = obj.get_attrs('migration', attr_group_cls)
+    if attrs.ref_obj:
+        return
+
     if not attrs.normalized_ref:
         raise JsonReferenceError('empty normalized_ref for {} in {}'.format(
             obj.ref, path))
@@ -46,14 +47,13 @@ def _resolve(obj, expected, attr_group_cls, app, path):
         raise JsonReferenceError('Unable to resolve: {} in {}'.format(
             attrs.normalized_ref, path))
 
-    attrs.ref_obj = resolved
+    app.spec_obj_store.update(attrs, ref_obj=resolved)
 
     # the referenced one might be nothing but another reference,
     # which is left to its own document when that one is not prepared yet.
-    if isinstance(resolved, Reference):
-        resolved_attrs = resolved.get_attrs('migration', attr_group_cls)
-        if resolved_attrs.normalized_ref and resolved_attrs.ref_obj is None:
-            _resolve(resolved, expected, attr_group_cls, app, path)
+    if isinstance(resolved, Reference) and resolved.get_attrs(
+            'migration', attr_group_cls).normalized_ref:
+        _resolve(resolved, expected, attr_group_cls, app, path)
 
 
 class Resolve(object):
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 334ea6c..fcc43d2 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -61,13 +61,9 @@ def _resolve(obj, expected, app, path):
         raise JsonReferenceError('Unable to resolve: {} in {}'.format(
             attrs.normalized_ref, path))
 
-    if obj.ref.startswith('#'):
-        _, obj.ref = jr_split(new_ref)
-    else:
-        obj.ref = new_ref
-
-    attrs.normalized_ref = new_ref
-    attrs.ref_obj = resolved
+    app.spec_obj_store.update(
+        obj, ref=jr_split(new_ref)[1] if obj.ref.startswith('#') else new_ref)
+    app.spec_obj_store.update(attrs, normalized_ref=new_ref, ref_obj=resolved)
 
     # the referenced one might be nothing but another reference,
     # which is left to its own document when that one is not prepared yet.
-- 
2.43.0


From 36bb56ce1f9c912b18b6d6088194d2daf7c5c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 75/90] fix: unable to undo changes to objects which are gone
 when failed to load

---
 pyopenapi/migration/store.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index a0ee5ce..263c31d 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -74,10 +74,14 @@ class SpecObjStore(object):
         try:
             yield
         except BaseException:
-            self.__spec_objs, self.__routes = spec_objs, routes
             while len(self.__updates) > updated:
                 obj, name, value = self.__updates.pop()
-                setattr(obj, name, value)
+                try:
+                    setattr(obj, name, value)
+                except ReferenceError:
+                    # this one is already gone
+                    pass
+            self.__spec_objs, self.__routes = spec_objs, routes
             raise
         finally:
             self.__transactions -= 1
-- 
2.43.0


From dfb3957a56a82d596739e879592dfc4b35c7aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 76/90] fix: responses of operations are replaced each time
 they are prepared

---
 pyopenapi/migration/versions/v2_0/scanner/yaml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/yaml.py b/pyopenapi/migration/versions/v2_0/scanner/yaml.py
index b7aa05c..0e1b7cc 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/yaml.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/yaml.py
@@ -24,6 +24,10 @@ class YamlFixer(object):
         if obj.responses is None:
             return
 
+        # nothing to fix, or fixed already
+        if not any(isinstance(k, six.integer_types) for k in obj.responses.keys()):
+            return
+
         responses = MapOfResponseOrReference({}, obj.responses.get_path())
         for k, resp in six.iteritems(obj.responses):
             if isinstance(k, six.integer_types):
-- 
2.43.0


From 1de4e8ac6b6cf513f0f538fdedf7aaaaf1a57e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 77/90] fix: tab-separated arrays can not be expressed in 3.0,
 and should not turn into something else

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index da9ef37..34bc630 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -59,6 +59,10 @@ def to_style_and_explode(collection_format, in_, type_, path):
         if in_ == 'query':
             style = 'form'
             explode = True
+    elif collection_format == 'tsv':
+        # there is no equivalent style, no matter where it is
+        raise SchemaError('Unsupported style: tsv for {},{} {}'.format(
+            in_, type_, path))
 
     return style, explode
 
-- 
2.43.0


From 8b1744df895dcf87b9021b6a9972326c39f9dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:11 +0000
Subject: [PATCH 78/90] fix: get_swagger_version fails for OpenApi objects

---
 pyopenapi/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index f3cf0cd..e54d284 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -339,8 +339,10 @@ def get_swagger_version(obj):
         return None
     else:
         # should be an instance of BaseObj
-        return obj.swaggerVersion if hasattr(obj,
-                                             'swaggerVersion') else obj.swagger
+        for name in ('swaggerVersion', 'swagger', 'openapi'):
+            if hasattr(obj, name):
+                return getattr(obj, name)
+        return None
 
 
 def compare_container(src,
-- 
2.43.0


From 1e7cb6b4865721b538afb8d935502c7cd0ba953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 79/90] fix: YAML documents could build arbitrary Python
 objects

---
 pyopenapi/migration/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 5676970..2400dbc 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -48,7 +48,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.load(obj)
+                    obj = yaml.safe_load(obj)
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
-- 
2.43.0


From d74db06e324cd22af8018f2ced98331e0e897f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:23 +0000
Subject: [PATCH 80/90] fix: objects are prepared twice when resolving, and the
 second result is dropped

---
 pyopenapi/migration/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index af2fdf2..c95391a 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -332,7 +332,6 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                     jref = url + j
 
                 obj = obj and self.migrate_obj(obj, jref, to_spec_version)
-                obj = obj and self.prepare_obj(obj, jref)
 
             relocated_jp = self.spec_obj_store.relocate(
                 url, jp, from_spec_version, to_spec_version)
-- 
2.43.0


From cce49619de83e63c2f78aa6a3bd6294a659d0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:32 +0000
Subject: [PATCH 81/90] fix: references into parameters, responses and their
 schemas are not relocated

---
 .../v2_0/scanner/upgrade/converters.py        | 132 ++++++++++++++++--
 pyopenapi/migration/versions/v3_0_0/main.py   |   9 +-
 .../versions/v3_0_0/scanner/resolve.py        |   4 +
 3 files changed, 127 insertions(+), 18 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 34bc630..dfc4465 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -9,6 +9,9 @@ from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS, OAUTH_FLOWS
 from .parameter_context import ParameterContext
 
 
+METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')
+
+
 def _generate_fields(obj, names):
     ret = {}
     for name in names:
@@ -503,6 +506,104 @@ def _is_overridden(param, others):
     return False
 
 
+def _add_routes(reloc, from_, to_, routes):
+    """ add routes of one part, which was moved from 'from_' to 'to_'
+    """
+    if from_ != to_:
+        reloc[from_] = to_
+    for part, moved in six.iteritems(routes):
+        reloc[from_ + '/' + part] = to_ + '/' + moved
+
+
+def _is_payload(obj):
+    """ check if this Parameter becomes (part of) a RequestBody """
+    obj = deref(obj)
+    return getattr(obj, 'type', None) == 'file' or getattr(
+        obj, 'in', None) in ('body', 'formData')
+
+
+def parameter_routes(obj, new_obj):
+    """ relocation of those parts in a Parameter, or nothing when it is a
+    reference, there is nothing under it.
+    """
+    if getattr(obj, '$ref', None):
+        return {}
+
+    if not _is_payload(obj):
+        return {'items': 'schema/items'} if obj.items else {}
+
+    for type_, media_type in six.iteritems(new_obj['content']):
+        schema = jp_compose(['content', type_, 'schema'])
+        if getattr(obj, 'in', None) == 'body':
+            return {'schema': schema}
+        if obj.items and obj.name in media_type['schema']['properties']:
+            return {
+                'items': jp_compose(
+                    ['properties', obj.name, 'items'], base=schema)
+            }
+
+    return {}
+
+
+def response_routes(obj, new_obj):
+    """ relocation of those parts in a Response, or nothing when it is a
+    reference, there is nothing under it.
+    """
+    reloc = {}
+    if getattr(obj, '$ref', None):
+        return reloc
+
+    if obj.schema:
+        for type_ in new_obj['content']:
+            reloc['schema'] = jp_compose(['content', type_, 'schema'])
+            break
+    for k, header in six.iteritems(obj.headers or {}):
+        if header.items:
+            reloc[jp_compose(['headers', k, 'items'])] = jp_compose(
+                ['headers', k, 'schema', 'items'])
+
+    return reloc
+
+
+def _parameters_routes(parameters, new_obj, body_field):
+    """ relocation of a list of Parameters """
+    reloc, new_index = {}, 0
+    for index, param in enumerate(parameters or []):
+        if _is_payload(param):
+            to_ = body_field
+            new_param = new_obj[body_field]
+        else:
+            to_ = 'parameters/{}'.format(new_index)
+            new_param = new_obj['parameters'][new_index]
+            new_index += 1
+        _add_routes(reloc, 'parameters/{}'.format(index), to_,
+                    parameter_routes(param, new_param))
+    return reloc
+
+
+def operation_routes(obj, new_obj):
+    """ relocation of those parts in an Operation """
+    reloc = _parameters_routes(obj.parameters, new_obj, 'requestBody')
+    for k, resp in six.iteritems(obj.responses or {}):
+        path = jp_compose(['responses', k])
+        _add_routes(reloc, path, path,
+                    response_routes(resp, new_obj['responses'][k]))
+    return reloc
+
+
+def path_item_routes(obj, new_obj):
+    """ relocation of those parts in a PathItem """
+    reloc = _parameters_routes(obj.parameters, new_obj,
+                               'x-pyopenapi_internal_request_body')
+    for method in METHODS:
+        operation = getattr(obj, method, None)
+        if operation:
+            for from_, to_ in six.iteritems(
+                    operation_routes(operation, new_obj[method])):
+                reloc[method + '/' + from_] = method + '/' + to_
+    return reloc
+
+
 def to_operation(obj,
                  body,
                  root_url,
@@ -643,15 +744,7 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
                 parameters.append(new_p)
 
     # operations
-    for method in (
-            'get',
-            'put',
-            'post',
-            'delete',
-            'options',
-            'head',
-            'patch',
-    ):
+    for method in METHODS:
         operation = getattr(obj, method, None)
         if operation:
             ret[method] = to_operation(
@@ -722,6 +815,7 @@ def to_openapi(obj, path):
                 jp_compose(k, base=path),
                 consumes=obj.consumes,
                 produces=obj.produces)
+            tmp_reloc.update(path_item_routes(path_, paths[k]))
             if tmp_reloc:
                 reloc.setdefault('paths', {})[k.replace('~', '~0').replace(
                     '/', '~1')] = tmp_reloc
@@ -762,20 +856,26 @@ def to_openapi(obj, path):
             request_bodies = None
             param_reloc = {}
             for k, param in six.iteritems(obj.parameters):
-                param, pctx = from_parameter(param, None, None,
+                new_p, pctx = from_parameter(param, None, None,
                                              jp_compose(
                                                  ['parameters', k], base=path))
+                new_path = jp_compose(k, base='#/components/parameters')
                 if pctx.is_body:
                     if request_bodies is None:
                         request_bodies = components.setdefault(
                             'requestBodies', {})
-                    request_bodies[k] = param
-                    param_reloc[jp_compose(k)] = jp_compose(
-                        k, base='#/components/requestBodies')
+                    request_bodies[k] = new_p
+                    new_path = jp_compose(k, base='#/components/requestBodies')
+                    param_reloc[jp_compose(k)] = new_path
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
-                    parameters[k] = param
+                    parameters[k] = new_p
+
+                for part, moved in six.iteritems(
+                        parameter_routes(param, new_p)):
+                    param_reloc[jp_compose(k) + '/' + part] = \
+                        new_path + '/' + moved
 
             param_reloc[''] = '#/components/parameters'
             reloc['parameters'] = param_reloc
@@ -787,6 +887,10 @@ def to_openapi(obj, path):
                 responses[k] = to_response(resp, obj.produces,
                                            jp_compose(
                                                ['responses', k], base=path))
+                for part, moved in six.iteritems(
+                        response_routes(resp, responses[k])):
+                    reloc[jp_compose(['responses', k]) + '/' + part] = \
+                        jp_compose(['components', 'responses', k]) + '/' + moved
 
             reloc['responses'] = 'components/responses'
 
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 4b5558a..a978bf2 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -50,16 +50,17 @@ def upgrade(obj, app, jref):
                 jp,
                 consumes=root.consumes if root else None,
                 produces=root.produces if root else None)
+            reloc.update(converters.path_item_routes(ret, migrated))
             ret = objects.PathItem(migrated, path=jp, override=override)
         elif isinstance(ret, Parameter):
             migrated, pctx = converters.from_parameter(ret, None, None, jp)
+            reloc = converters.parameter_routes(ret, migrated)
             ret = (objects.RequestBody if pctx.is_body else objects.Parameter)(
                 migrated, path=jp, override=override)
         elif isinstance(ret, Response):
-            ret = objects.Response(
-                converters.to_response(ret, None, jp),
-                path=jp,
-                override=override)
+            migrated = converters.to_response(ret, None, jp)
+            reloc = converters.response_routes(ret, migrated)
+            ret = objects.Response(migrated, path=jp, override=override)
         elif isinstance(ret, Reference):
             ret = objects.Reference(
                 {
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index fcc43d2..8d51d05 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -49,6 +49,10 @@ def _resolve(obj, expected, app, path):
                 obj.ref, path))
         return
 
+    if attrs.ref_obj is not None:
+        # already resolved, and should not be relocated again
+        return
+
     resolved, new_ref = app.resolve_obj(
         attrs.normalized_ref,
         from_spec_version=app.original_spec_version
-- 
2.43.0


From 9cef9c7597910da0747e534d25cc28d014d7ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:38 +0000
Subject: [PATCH 82/90] fix: media types of request bodies are in random order

---
 .../v2_0/scanner/upgrade/parameter_context.py  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/parameter_context.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/parameter_context.py
index 262df8e..af824f6 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/parameter_context.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/parameter_context.py
@@ -46,15 +46,21 @@ class ParameterContext(object):
             return [self.get_default_mime_type()]
 
         if self.is_file:
-            return list(set(self.__valid_mime_types) & set(FILE_CONTENT_TYPES)
-                        ) or [self.get_default_mime_type()]
+            return self._keep(FILE_CONTENT_TYPES)
         elif self.is_form:
-            return list(
-                set(self.__valid_mime_types) & set([
-                    'application/x-www-form-urlencoded', 'multipart/form-data'
-                ])) or [self.get_default_mime_type()]
+            return self._keep(
+                ['application/x-www-form-urlencoded', 'multipart/form-data'])
         return self.__valid_mime_types
 
+    def _keep(self, allowed):
+        """ keep only allowed ones, each once and in the order they are declared
+        """
+        ret = []
+        for type_ in self.__valid_mime_types:
+            if type_ in allowed and type_ not in ret:
+                ret.append(type_)
+        return ret or [self.get_default_mime_type()]
+
     def get_default_mime_type(self):
         if self.is_file:
             return 'multipart/form-data'
-- 
2.43.0


From 6f6246c7eacfe096753b3ef3d80d40febe1ceb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:51 +0000
Subject: [PATCH 83/90] fix: files are decoded as the locale says instead of as
 UTF-8

---
 pyopenapi/migration/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 2400dbc..29c8522 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import io
 import json
 import os
 import logging
@@ -120,7 +121,7 @@ class LocalGetter(Getter):
         logger.info('final path to load: [%s]', path)
 
         ret = None
-        with open(path, 'r') as file_handle:
+        with io.open(path, 'r', encoding='utf-8') as file_handle:
             ret = file_handle.read()
         return ret
 
-- 
2.43.0


From d682f6deefd30817dc48aec401d422d237b30716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 84/90] fix: a part that was handed out is not found once what
 holds it is cached

---
 pyopenapi/migration/store.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 263c31d..db61a02 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -104,13 +104,19 @@ class SpecObjStore(object):
         if not url_cache:
             return None
 
-        # try to find a 'jp' with common prefix with input under 'url'
+        # try to find a 'jp' with common prefix with input under 'url',
+        # the closest one when a part of that one is cached, too
+        closest = None
         for path, cache in six.iteritems(url_cache):
             if _is_under(jp, path) and spec_version in cache:
-                return cache[spec_version].resolve(
-                    utils.jp_split(jp[len(path):])[1:])
+                if closest is None or len(path) > len(closest):
+                    closest = path
 
-        return None
+        if closest is None:
+            return None
+
+        return url_cache[closest][spec_version].resolve(
+            utils.jp_split(jp[len(closest):])[1:])
 
     def get_under(self, url, jp, spec_version, remove=True):
         """ get all children under 'jp', and remove them
-- 
2.43.0


From cf7510eb8be30418718cd9697495779b5cda2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:42 +0000
Subject: [PATCH 85/90] fix: merging path items ends at a document which is
 loaded, but not prepared yet

---
 pyopenapi/migration/versions/comm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/comm.py b/pyopenapi/migration/versions/comm.py
index 5f761a5..1c9ae5f 100644
--- a/pyopenapi/migration/versions/comm.py
+++ b/pyopenapi/migration/versions/comm.py
@@ -2,7 +2,7 @@
 
 from __future__ import absolute_import
 from ...errs import CycleDetectionError
-from ...utils import CycleGuard
+from ...utils import CycleGuard, jr_split, normalize_jr
 
 
 def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
@@ -19,7 +19,7 @@ def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
     attrs = obj.get_attrs('migration', attr_group_cls)
     cur_ref = attrs.normalized_ref
     while cur_ref:
-        resolved, _ = app.resolve_obj(
+        resolved, resolved_ref = app.resolve_obj(
             cur_ref,
             parser=parser,
             from_spec_version=from_spec_version,
@@ -38,6 +38,8 @@ def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
         final.merge_children(resolved)
 
         attrs = resolved.get_attrs('migration', attr_group_cls)
-        cur_ref = attrs.normalized_ref
+        # the document of this one might be loaded but not prepared yet
+        cur_ref = (attrs.normalized_ref
+                   or normalize_jr(resolved.ref, jr_split(resolved_ref)[0]))
 
     return final
-- 
2.43.0


From c0bebbbe5be9622d956e25e3da882d07a9a66d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:31 +0000
Subject: [PATCH 86/90] fix: json led by white-spaces or a byte-order-mark is
 parsed as yaml

---
 pyopenapi/migration/getter.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 29c8522..080608f 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -46,16 +46,27 @@ class Getter(six.Iterator):
         # a very simple logic to distinguish json and yaml
         if isinstance(obj, six.string_types):
             try:
-                if obj.startswith('{'):
-                    obj = json.loads(obj)
-                else:
-                    obj = yaml.safe_load(obj)
+                obj = self._parse(obj)
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
 
         return obj
 
+    @staticmethod
+    def _parse(text):
+        # json might be led by white-spaces or a byte-order-mark
+        stripped = text.lstrip(u'\ufeff \t\r\n')
+        if stripped.startswith(('{', '[')):
+            try:
+                return json.loads(stripped)
+            except ValueError:
+                if text.startswith('{'):
+                    raise
+                # it should be yaml in flow style
+
+        return yaml.safe_load(text)
+
     def load(self, path):
         """ load the resource, and return for parsing.
 
-- 
2.43.0


From a03e02e481399be930546434625c836745715cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 87/90] fix: paths of loaded objects depend on how they were
 asked for

---
 pyopenapi/migration/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index c95391a..96d0f34 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -171,14 +171,14 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         elif version == '2.0':
             # swagger 2.0
-            obj = Swagger(src_spec, jref, override)
+            obj = Swagger(src_spec, url + jp, override)
 
         elif version == '3.0.0':
             # openapi 3.0.0
-            obj = OpenApi(src_spec, jref, override)
+            obj = OpenApi(src_spec, url + jp, override)
 
         elif version is None and parser:
-            obj = parser(src_spec, jref, {})
+            obj = parser(src_spec, url + jp, {})
             if hasattr(obj, '__swagger_version__'):
                 version = obj.__swagger_version__
                 cached = self.spec_obj_store.get(url, jp, version)
@@ -189,7 +189,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 override = self.spec_obj_store.get_under(
                     url, jp, version, remove=remove_dummy)
                 if override:
-                    obj = parser(src_spec, jref, override)
+                    obj = parser(src_spec, url + jp, override)
         else:
             raise NotImplementedError(
                 'Unsupported Swagger Version: {0} from {1}'.format(
-- 
2.43.0


From e2850b33299ed0d9349812b6cc99e2fb998ae57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:19 +0000
Subject: [PATCH 88/90] fix: chains of references end at a document which is
 only loaded

---
 .../migration/versions/v2_0/scanner/resolve.py    | 15 +++++++++------
 .../migration/versions/v3_0_0/scanner/resolve.py  | 12 +++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 52e7148..a1d0b3d 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -3,7 +3,7 @@
 from __future__ import absolute_import
 import six
 
-from .....utils import jp_compose
+from .....utils import jp_compose, jr_split, normalize_jr
 from .....errs import SchemaError, JsonReferenceError
 from ....scan import Dispatcher
 from ..objects import (
@@ -37,7 +37,7 @@ def _resolve(obj, expected, attr_group_cls, app, path):
         raise JsonReferenceError('empty normalized_ref for {} in {}'.format(
             obj.ref, path))
 
-    resolved, _ = app.resolve_obj(
+    resolved, resolved_ref = app.resolve_obj(
         attrs.normalized_ref,
         from_spec_version='2.0',
         parser=expected,
@@ -49,10 +49,13 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     app.spec_obj_store.update(attrs, ref_obj=resolved)
 
-    # the referenced one might be nothing but another reference,
-    # which is left to its own document when that one is not prepared yet.
-    if isinstance(resolved, Reference) and resolved.get_attrs(
-            'migration', attr_group_cls).normalized_ref:
+    # the referenced one might be nothing but another reference, its document
+    # might be loaded but not prepared yet.
+    if isinstance(resolved, (Reference, Schema)) and resolved.ref:
+        resolved_attrs = resolved.get_attrs('migration', attr_group_cls)
+        if not resolved_attrs.normalized_ref:
+            resolved_attrs.normalized_ref = normalize_jr(
+                resolved.ref, jr_split(resolved_ref)[0])
         _resolve(resolved, expected, attr_group_cls, app, path)
 
 
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 8d51d05..d5af2f9 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -3,7 +3,7 @@
 from __future__ import absolute_import
 import six
 
-from .....utils import jp_compose, jr_split
+from .....utils import jp_compose, jr_split, normalize_jr
 from .....errs import JsonReferenceError
 from ....scan import Dispatcher
 from ..objects import (
@@ -69,13 +69,15 @@ def _resolve(obj, expected, app, path):
         obj, ref=jr_split(new_ref)[1] if obj.ref.startswith('#') else new_ref)
     app.spec_obj_store.update(attrs, normalized_ref=new_ref, ref_obj=resolved)
 
-    # the referenced one might be nothing but another reference,
-    # which is left to its own document when that one is not prepared yet.
+    # the referenced one might be nothing but another reference, its document
+    # might be loaded but not prepared yet.
     if isinstance(resolved, Reference):
         resolved_attrs = resolved.get_attrs('migration',
                                             ReferenceAttributeGroup)
-        if resolved_attrs.normalized_ref and resolved_attrs.ref_obj is None:
-            _resolve(resolved, expected, app, path)
+        if not resolved_attrs.normalized_ref:
+            resolved_attrs.normalized_ref = normalize_jr(
+                resolved.ref, jr_split(new_ref)[0])
+        _resolve(resolved, expected, app, path)
 
 
 class Resolve(object):
-- 
2.43.0


From f06b922964d728a3656ae7426e6524c0d8b1f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:21 +0000
Subject: [PATCH 89/90] fix: a reference which is asked for by itself is left
 unresolved

---
 pyopenapi/migration/base.py                           | 11 ++++++++---
 pyopenapi/migration/versions/v1_2/main.py             |  2 +-
 pyopenapi/migration/versions/v2_0/main.py             |  6 ++++--
 pyopenapi/migration/versions/v2_0/scanner/resolve.py  |  4 ++++
 pyopenapi/migration/versions/v3_0_0/main.py           |  4 +++-
 .../migration/versions/v3_0_0/scanner/resolve.py      |  4 ++++
 6 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 96d0f34..9b79c1e 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -209,8 +209,11 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         return obj
 
-    def migrate_obj(self, obj, jref, spec_version):
+    def migrate_obj(self, obj, jref, spec_version, parser=None):
         """ migrate an object(those in spec._version_.objects)
+
+        :param parser: the parser corresponding to this object, needed to resolve
+            an object which is nothing but a reference.
         """
         spec_version = spec_version
         supported_versions = self.migratable_spec_versions
@@ -246,7 +249,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 migration_module = importlib.import_module(migration_module_path)
 
                 # preform migration
-                obj, reloc = migration_module.upgrade(obj, self, jref)
+                obj, reloc = migration_module.upgrade(
+                    obj, self, jref, parser=parser)
 
                 # update route for object relocation
                 self.spec_obj_store.update_routes(url, version,
@@ -331,7 +335,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 else:
                     jref = url + j
 
-                obj = obj and self.migrate_obj(obj, jref, to_spec_version)
+                obj = obj and self.migrate_obj(
+                    obj, jref, to_spec_version, parser=parser)
 
             relocated_jp = self.spec_obj_store.relocate(
                 url, jp, from_spec_version, to_spec_version)
diff --git a/pyopenapi/migration/versions/v1_2/main.py b/pyopenapi/migration/versions/v1_2/main.py
index 3b62bbe..3ecb0ba 100644
--- a/pyopenapi/migration/versions/v1_2/main.py
+++ b/pyopenapi/migration/versions/v1_2/main.py
@@ -6,7 +6,7 @@ import logging
 logger = logging.getLogger(__name__)
 
 
-def upgrade(obj, _, jref):
+def upgrade(obj, _, jref, parser=None):  # pylint: disable=unused-argument
     logger.info('upgrade %s to 2.0 spec', jref)
 
     return obj, {}
diff --git a/pyopenapi/migration/versions/v2_0/main.py b/pyopenapi/migration/versions/v2_0/main.py
index 89a6a8b..8c9f780 100644
--- a/pyopenapi/migration/versions/v2_0/main.py
+++ b/pyopenapi/migration/versions/v2_0/main.py
@@ -5,10 +5,10 @@ from ....utils import jr_split
 from ...scan import scan
 from ..v1_2.scanner import Upgrade
 from .scanner import Resolve, YamlFixer, NormalizeRef, Merge
-from .objects import Operation
+from .objects import Operation, Reference
 
 
-def upgrade(obj, app, jref):
+def upgrade(obj, app, jref, parser=None):
     ret = obj
 
     if ret.__swagger_version__ == '1.2':
@@ -38,6 +38,8 @@ def upgrade(obj, app, jref):
         # pre resolve Schema Object
         # note: make sure this object is cached before using 'Resolve' scanner
         scan(root=ret, route=[Resolve(app)])
+        if parser and isinstance(ret, Reference):
+            Resolve(app).reference(jref, ret, parser)
 
         # merge path-item
         scan(root=ret, route=[Merge(app)])
diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index a1d0b3d..b9e5c61 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -68,6 +68,10 @@ class Resolve(object):
     def __init__(self, app):
         self.app = app
 
+    def reference(self, path, obj, expected):
+        """ resolve a reference which is not a part of other objects """
+        _resolve(obj, expected, ReferenceAttributeGroup, self.app, path)
+
     @Disp.register([Schema])
     def _schema(self, path, obj):
         _resolve(obj, Schema, SchemaAttributeGroup, self.app, path)
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index a978bf2..21fea43 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -17,7 +17,7 @@ from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
 
 
-def upgrade(obj, app, jref):
+def upgrade(obj, app, jref, parser=None):
     ret = obj
     reloc = {}
     url, jp = jr_split(jref)
@@ -83,6 +83,8 @@ def upgrade(obj, app, jref):
 
         # phase 3: resolve $ref
         scan(root=ret, route=[Resolve(app)])
+        if parser and isinstance(ret, objects.Reference):
+            Resolve(app).reference(jref, ret, parser)
 
         # phase 4: merge path item from $ref
         scan(root=ret, route=[Merge(app)])
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index d5af2f9..081db71 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -89,6 +89,10 @@ class Resolve(object):
     def __init__(self, app):
         self.app = app
 
+    def reference(self, path, obj, expected):
+        """ resolve a reference which is not a part of other objects """
+        _resolve(obj, expected, self.app, path)
+
     @Disp.register([PathItem])
     def _path_item(self, path, obj):
         _resolve(obj, PathItem, self.app, path)
-- 
2.43.0


From a0817becc58fa5acdcc2e2c105aeda163baa72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:08 +0000
Subject: [PATCH 90/90] fix: a reference to a folder by dot segments loses the
 trailing slash

---
 pyopenapi/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index e54d284..a9a3797 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -322,6 +322,10 @@ def derelativise_url(url):
             newpath = newpath[:-1]
             continue
         newpath += [chunk]
+
+    # what ends with a dot-segment is a folder
+    if _fullmatch(r'\.+', chunk) is not None:
+        newpath += ['']
     return six.moves.urllib.parse.urlunparse(
         parsed[:2] + ('/' + ('/'.join(newpath)), ) + parsed[3:])
 
-- 
2.43.0

