From 5b19c2f7bae056e2f1783db8f34aa48b509a7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 01/27] fix: cache.ignore_descendants = True reaches the
 wrapper that reads it

---
 cache_dependencies/tagging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 511bb21..0a1ee2f 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -10,6 +10,14 @@ class CacheTagging(object):  # Backward compatibility
         """Constructor of cache instance."""
         self.cache = CacheWrapper(cache, relation_manager, transaction)
 
+    @property
+    def ignore_descendants(self):
+        return self.cache.ignore_descendants
+
+    @ignore_descendants.setter
+    def ignore_descendants(self, value):
+        self.cache.ignore_descendants = value
+
     def get_or_set_callback(self, key, callback, tags=(), timeout=None,
                             version=None, args=None, kwargs=None):
         """Returns cache value if exists
-- 
2.43.0


From c1287f2382e78a89531fabff7a4bbab620edc63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 02/27] fix: end of a REPEATABLE READ or SERIALIZABLE
 transaction invalidates its tags

---
 cache_dependencies/locks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache_dependencies/locks.py b/cache_dependencies/locks.py
index af16d76..b348665 100644
--- a/cache_dependencies/locks.py
+++ b/cache_dependencies/locks.py
@@ -94,6 +94,9 @@ class RepeatableReadDependencyLock(DependencyLock):
         :type version: int or None
         """
         dependency.release(self._cache(), transaction, self._delay, version)
+        # Only after the lock is passed on: drops everything that was created since the invalidation,
+        # by this session itself (it can be rolled back) or after the lock has expired or been overwritten.
+        dependency.invalidate(self._cache(), version)
 
 
 class SerializableDependencyLock(RepeatableReadDependencyLock):
-- 
2.43.0


From b3f3a5bc57146658dda39375866f90f48d9dd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:57 +0000
Subject: [PATCH 03/27] fix: check tag locks after the missing tag versions are
 created, not before

---
 cache_dependencies/dependencies.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index dd5e3bf..ea07d42 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -209,17 +209,15 @@ class TagsDependency(interfaces.IDependency):
         :type transaction: cache_dependencies.interfaces.ITransaction
         :type version: int or None
         """
-        deferred = self._get_tag_versions(cache, version)
-        deferred += self._get_locked_tags(cache, transaction, version)
-        locked_tags = deferred.get()
-        tag_versions = deferred.get()
-        # All deferred operations in this method should be completed
-        # before exception will be raised.
-        if locked_tags:
-            raise exceptions.TagsLocked(self, locked_tags)
+        tag_versions = self._get_tag_versions(cache, version).get()
         nonexistent_tags = self.tags - set(tag_versions.keys())
         created_tag_versions = self._make_tag_versions(cache, nonexistent_tags, version)
         tag_versions.update(created_tag_versions)
+        # Only after all versions exist: a transaction which locks the tags later than that
+        # deletes these versions too, one which has locked them earlier is seen here.
+        locked_tags = self._get_locked_tags(cache, transaction, version).get()
+        if locked_tags:
+            raise exceptions.TagsLocked(self, locked_tags)
         self.tag_versions = tag_versions
 
     def validate(self, cache, version):
-- 
2.43.0


From c9091c77a98735e5530cc90835ea14f61b36551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 04/27] fix: own repeated acquiring of a tag does not hide that
 another session has released it

---
 cache_dependencies/dependencies.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index ea07d42..75345a2 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -318,8 +318,10 @@ class TagsDependency(interfaces.IDependency):
             state = acquired_tag_states.get(tag)
             released_state = released_tag_states.get(tag)
             if released_state is not None:
-                if state is None or released_state.is_released(state):
-                    state = released_state
+                if released_state.is_locked(transaction):
+                    locked_tags.add(tag)
+                if state is not None and released_state.is_released(state):
+                    state = None
             if state is not None and state.is_locked(transaction):
                 locked_tags.add(tag)
         return locked_tags
-- 
2.43.0


From ca398d017ed0708bdd2f59e62c325cfc09d0ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 05/27] fix: forked process does not inherit the session id of
 its parent

---
 cache_dependencies/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/utils.py b/cache_dependencies/utils.py
index d48e1c7..4253f0c 100644
--- a/cache_dependencies/utils.py
+++ b/cache_dependencies/utils.py
@@ -36,13 +36,13 @@ Undef = UndefType()
 
 def get_thread_id():
     """Returns id for current thread."""
-    try:
-        return _thread_local.thread_id
-    except AttributeError:
+    pid = os.getpid()
+    if getattr(_thread_local, 'pid', None) != pid:  # The id is not inherited by forked process
         _thread_local.thread_id = '{0}.{1}.{2}'.format(
-            socket.gethostname(), os.getpid(), _thread.get_ident()
+            socket.gethostname(), pid, _thread.get_ident()
         )
-        return get_thread_id()
+        _thread_local.pid = pid
+    return _thread_local.thread_id
 
 
 def warn(old, new, stacklevel=3):
-- 
2.43.0


From e3e16f75a41aa0beffb77d1686b59a2b94e68551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 06/27] fix: validate_key() warns about control characters
 instead of raising ValueError

---
 cache_dependencies/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 545c34a..ffba1b2 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -318,7 +318,7 @@ class AbstractCache(interfaces.ICache):
             if ord(char) < 33 or ord(char) == 127:
                 warnings.warn(
                     'Cache key contains characters that will cause ' +
-                    'errors if used with memcached: {0:!r}'.format(key)
+                    'errors if used with memcached: {0!r}'.format(key)
                 )
 
     def incr_version(self, key, delta=1, version=None):
-- 
2.43.0


From 19d190be2ac301c7291e6f33f91d6ef730e2ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:09 +0000
Subject: [PATCH 07/27] fix: get_many() accepts any iterable, such as a
 generator

---
 cache_dependencies/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index ffba1b2..c4ecf0b 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -82,6 +82,7 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
+        keys = list(keys)
         if not abort and not self.ignore_descendants:
             current_cache_node = self.relation_manager.current()
             for key in keys:
-- 
2.43.0


From 3fa8277dd048986fac43ab343fc2a10f5a29801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 08/27] fix: entry missed by get_many() and built inside
 another entry passes its dependencies to that one

---
 cache_dependencies/relations.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/relations.py b/cache_dependencies/relations.py
index e552a22..84ce68b 100644
--- a/cache_dependencies/relations.py
+++ b/cache_dependencies/relations.py
@@ -70,10 +70,21 @@ class RelationManager(interfaces.IRelationManager):
         self._data = dict()  # recursive cache is not possible, so, using dict instead of stack.
 
     def get(self, key):
-        if key not in self._data:
+        if key not in self._data or not self._is_related(self._data[key]):
             self._data[key] = CacheNode(key, self._current)
         return self._data[key]
 
+    def _is_related(self, node):
+        """Returns False if node was begun (by get_many(), for example) under another ancestor and left unfinished."""
+        if node.parent() is self._current:
+            return True
+        current = self._current
+        while current:
+            if current is node:
+                return True
+            current = current.parent()
+        return False
+
     def current(self, key_or_node=Undef):
         if key_or_node is Undef:
             return self._current
-- 
2.43.0


From a3464fc622ef94c4a1365e276dbc9184f13eb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 09/27] fix: get_or_set_callback() aborts building of the entry
 if the callback raises

---
 cache_dependencies/cache.py   | 6 +++++-
 cache_dependencies/tagging.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index c4ecf0b..31bfb16 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -45,7 +45,11 @@ class CacheWrapper(object):  # Adapter
         if value is None:
             args = args or []
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                raise
             self.set(key, value, dependency, timeout, version)
         return value
 
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 0a1ee2f..2d3261a 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -28,7 +28,11 @@ class CacheTagging(object):  # Backward compatibility
         if value is None:
             args = args or ()
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                raise
             self.set(key, value, tags, timeout, version)
         return value
 
-- 
2.43.0


From 65b5c0a0a4ff545be963e981b8ff8f8bb69ff466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 10/27] fix: nested {% cache_tagging %} keeps tags and
 prevention of the enclosing one

---
 .../templatetags/cache_tagging_tags.py          | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 2c1569c..46f5617 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -23,6 +23,16 @@ register = Library()
 kwarg_re = re.compile(r"(?:(\w+)=)?(.+)")
 
 
+def prevent_caching(context):
+    """Sets the flag where enclosing {% cache_tagging %} has placed it, maybe outside of {% with %}, {% for %} etc."""
+    for d in reversed(context.dicts):
+        if 'cache_tagging_prevent' in d:
+            d['cache_tagging_prevent'] = True
+            break
+    else:
+        context['cache_tagging_prevent'] = True
+
+
 class CacheAddTagsNode(Node):
     """Adds a new tags from body of {% cache_tagging %}."""
     def __init__(self, tags):
@@ -81,7 +91,7 @@ class CacheNode(Node):
                     timeout = int(timeout)
                 except (ValueError, TypeError):
                     raise TemplateSyntaxError(
-                        '"cache" tag got a non-integer timeout value: {0}'.fomat(
+                        '"cache" tag got a non-integer timeout value: {0}'.format(
                             timeout
                         )
                     )
@@ -96,6 +106,7 @@ class CacheNode(Node):
                 context['cache_tagging_prevent'] = False
 
             sub_context = copy.copy(context)
+            sub_context.push()  # Otherwise variables will be written to the context of ancestor
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
@@ -104,7 +115,7 @@ class CacheNode(Node):
 
             # Prevent caching of ancestor
             if sub_context['cache_tagging_prevent']:
-                context['cache_tagging_prevent'] = True
+                prevent_caching(context)
             prevent = sub_context['cache_tagging_prevent']
 
             if 'request' in context:
@@ -204,7 +215,7 @@ def do_cache(parser, token):
 @register.simple_tag(takes_context=True)
 def cache_tagging_prevent(context):
     """Prevents caching from body of cachetags."""
-    context['cache_tagging_prevent'] = True
+    prevent_caching(context)
     return ''
 
 register.tag('cache_tagging', do_cache)
-- 
2.43.0


From 02d0ee78e5fe3fed8c8417fed669ce88eb68f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 11/27] fix: page depends on its fragments also when the list
 of its headers was missed

---
 django_cache_dependencies/middleware.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 958a316..f32f740 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -50,8 +50,9 @@ More details about how the caching works:
 """
 import collections
 from django.conf import settings
-from django.utils.cache import get_cache_key, get_max_age
+from django.utils.cache import get_cache_key, get_max_age, _generate_cache_header_key
 
+from cache_dependencies.dependencies import CompositeDependency, TagsDependency
 from . import caches, DEFAULT_CACHE_ALIAS
 from .utils import patch_response_headers, learn_cache_key
 
@@ -172,6 +173,11 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         if hasattr(request, 'cache_tagging'):
             tags.update(request.cache_tagging)
         if timeout:
+            # Everything read after a miss of the list of headers was inherited by that list, so pass it to the page.
+            header_key = _generate_cache_header_key(self.key_prefix, request)
+            tags = CompositeDependency(
+                TagsDependency(tags), self.cache.relation_manager.get(header_key).get_dependency()
+            )
             cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                 response.add_post_render_callback(
-- 
2.43.0


From 8cffe6d599a7c68a3b0a4a29b2fb33ddfd17269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 12/27] fix: UpdateCacheMiddleware works on its own, without
 tags

---
 django_cache_dependencies/middleware.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index f32f740..8651fcb 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -112,6 +112,8 @@ class UpdateCacheMiddleware(MiddlewareMixin):
     UpdateCacheMiddleware must be the first piece of middleware in MIDDLEWARE
     so that it'll get called last during the response phase.
     """
+    tags = None  # See CacheMiddleware
+
     def __init__(self, get_response=None):
         self.cache_timeout = settings.CACHE_MIDDLEWARE_SECONDS
         self.key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
-- 
2.43.0


From 85dbde12b16c262e8a2d39a82ad5b2df842973f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 13/27] fix: FileBasedCache writes the files that Django >= 1.7
 reads

---
 django_cache_dependencies/backends.py | 30 +++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 07c0563..1389947 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -1,6 +1,7 @@
 import os
 import random
 import time
+import zlib
 import tempfile
 import threading
 from django.core.cache.backends.filebased import pickle, FileBasedCache as DjangoFileBasedCache
@@ -10,12 +11,15 @@ class FileBasedCache(DjangoFileBasedCache):
     """Faile based backend with some improvements."""
 
     _fs_transaction_suffix = '.__dj_cache'
+    _is_compressed = hasattr(DjangoFileBasedCache, '_is_expired')  # File format of Django >= 1.7
 
     def set(self, key, value, timeout=None, version=None):
-        key = self.make_key(key, version=version)
-        self.validate_key(key)
-
-        fname = self._key_to_file(key)
+        if self._is_compressed:
+            fname = self._key_to_file(key, version)
+        else:
+            key = self.make_key(key, version=version)
+            self.validate_key(key)
+            fname = self._key_to_file(key)
         dirname = os.path.dirname(fname)
 
         if timeout is None:
@@ -31,10 +35,18 @@ class FileBasedCache(DjangoFileBasedCache):
             fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                        dir=dirname)
 
-            with os.fdopen(fd, 'wb') as f:
-                now = time.time()
-                pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
-                pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
-            os.rename(tmp, fname)
+            try:
+                with os.fdopen(fd, 'wb') as f:
+                    if self._is_compressed:
+                        pickle.dump(self.get_backend_timeout(timeout), f, pickle.HIGHEST_PROTOCOL)
+                        f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
+                    else:
+                        now = time.time()
+                        pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
+                        pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
+                os.rename(tmp, fname)
+            except BaseException:
+                os.remove(tmp)
+                raise
         except (IOError, OSError):
             pass
-- 
2.43.0


From 48139f7b16c43cb4f6934439863dbe4cd43966d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:38 +0000
Subject: [PATCH 14/27] fix: @cache_transaction_all(cache) returns the
 decorated function and closes transactions on exception

---
 django_cache_dependencies/decorators.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index e047ebc..303312e 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import, unicode_literals
 import collections
+from functools import wraps
 from django.utils.decorators import decorator_from_middleware_with_args
 
 from django_cache_dependencies import cache  # in real it used
@@ -46,21 +47,19 @@ def cache_transaction_all(f=None, cache=None):
     elif not cache:
         cache = globals()['cache']
 
-    def wrapper(*args, **kwargs):
-        cache.transaction.begin()
-        result = f(*args, **kwargs)
-        cache.transaction.flush()
-        return result
-
-    if f:
-        return wrapper
-
     def wrapper_outer(f):
+        @wraps(f)
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
-            result = f(*args, **kwargs)
-            cache.transaction.flush()
-            return result
+            try:
+                return f(*args, **kwargs)
+            finally:
+                cache.transaction.flush()
+
+        return wrapper
+
+    if f:
+        return wrapper_outer(f)
 
     return wrapper_outer
 
-- 
2.43.0


From d25f607de0b87dab60465a0f43bcaf41f277dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 15/27] fix: transactions of a foreign thread can not be
 flushed

---
 cache_dependencies/transaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 1f326dd..00bd054 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -192,4 +192,5 @@ class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, Abs
         return self._delegate.finish()
 
     def flush(self):
+        self._validate_thread_sharing()
         return self._delegate.flush()
-- 
2.43.0


From ca7e0bd7bcec960665ea146a8a1afd01df08164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 16/27] fix: function decorated by @cache.transaction can be
 called in any thread

---
 django_cache_dependencies/__init__.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index f2eb864..997e272 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -13,7 +13,10 @@ from django.utils.functional import curry
 from cache_dependencies.tagging import CacheTagging
 from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
 from cache_dependencies.locks import DependencyLock
-from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
+from cache_dependencies.transaction import (
+    AbstractTransactionManager, TransactionManager, ThreadSafeTransactionManagerDecorator
+)
+from cache_dependencies.utils import Undef
 from cache_dependencies.nocache import NoCache
 
 try:
@@ -82,6 +85,26 @@ class CacheCollection(object):
 caches = get_cache = CacheCollection()
 
 
+class DefaultTransactionProxy(AbstractTransactionManager):
+    """
+    Proxy access to the transaction manager of the default Cache object.
+
+    Decorator @cache.transaction is applied once, in the thread that imports the module,
+    but decorated function is called by any thread.
+    """
+    def current(self, node=Undef):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.current(node)
+
+    def begin(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.begin()
+
+    def finish(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.finish()
+
+    def flush(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.flush()
+
+
 class DefaultCacheProxy(object):
     """
     Proxy access to the default Cache object's attributes.
@@ -89,6 +112,8 @@ class DefaultCacheProxy(object):
     This allows the legacy `cache` object to be thread-safe using the new
     ``caches`` API.
     """
+    transaction = DefaultTransactionProxy()
+
     def __getattr__(self, name):
         return getattr(caches[DEFAULT_CACHE_ALIAS], name)
 
-- 
2.43.0


From 4840f71dad1afe75ccd0a6ab35cf99c084f9473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:22 +0000
Subject: [PATCH 17/27] fix: dependencies query the native cache, which does
 not record relations

---
 django_cache_dependencies/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index 997e272..7ac4265 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -61,7 +61,7 @@ class CacheCollection(object):
                 cache = django.core.cache.get_cache(django_backend, *args, **kwargs)
 
             def thread_safe_cache_accessor():
-                return self(backend, *args, **kwargs).cache
+                return self(backend, *args, **kwargs).cache.cache  # native cache, which does not record relations
             tags_lock = DependencyLock.make(isolation_level, thread_safe_cache_accessor, delay)
             transaction = ThreadSafeTransactionManagerDecorator(TransactionManager(tags_lock))
             relation_manager = ThreadSafeRelationManagerDecorator(RelationManager())
-- 
2.43.0


From cff3b74dd0b6bcb0e5bf0cf79bb0178d26bc11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 18/27] fix: cached page depends on its fragments also when the
 list of its headers changes

---
 django_cache_dependencies/middleware.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 8651fcb..874a705 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -175,10 +175,12 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         if hasattr(request, 'cache_tagging'):
             tags.update(request.cache_tagging)
         if timeout:
-            # Everything read after a miss of the list of headers was inherited by that list, so pass it to the page.
+            # Everything read after a miss of the list of headers, or of the page for another list of headers,
+            # was inherited by what was missed, so pass it to the page.
             header_key = _generate_cache_header_key(self.key_prefix, request)
+            missed_key = getattr(request, '_cache_missed_keys', {}).get(header_key, header_key)
             tags = CompositeDependency(
-                TagsDependency(tags), self.cache.relation_manager.get(header_key).get_dependency()
+                TagsDependency(tags), self.cache.relation_manager.get(missed_key).get_dependency()
             )
             cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
@@ -227,6 +229,10 @@ class FetchFromCacheMiddleware(MiddlewareMixin):
             request._cache_update_cache = True
             return None  # No cache information available, need to rebuild.
         response = self.cache.get(cache_key)
+        if response is None:
+            if not hasattr(request, '_cache_missed_keys'):
+                request._cache_missed_keys = {}
+            request._cache_missed_keys[_generate_cache_header_key(self.key_prefix, request)] = cache_key
         # if it wasn't found and we are looking for a HEAD, try looking just for that
         if response is None and request.method == 'HEAD':
             cache_key = get_cache_key(request, self.key_prefix, 'HEAD', cache=self.cache)
-- 
2.43.0


From 8471477cafac44af54da2a1261d0b05e88a775e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:28 +0000
Subject: [PATCH 19/27] fix: secret and tag name of NoCache are literal text,
 not a regular expression

---
 cache_dependencies/nocache.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index c7d6ac4..b469531 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -31,20 +31,20 @@ class NoCache(object):
         self.tag_name = tag_name
         # nocache.nocache can be used for nested cache handling.
         # Similar like Django {% openblock %} for "{%".
-        self._start = '<{0} secret="{1}" data="{{0}}">'.format(
+        self._start = '<{0} secret="{1}" data="'.format(
             self.tag_name, self.secret
         )
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}(.+?)(?!<{1}){2}'.format(
-            self._start.format('([^"]+)'),
-            self.tag_name,
-            self._end
+        self.nocache_pattern = r'{0}([^"]+)">(.+?)(?!<{1}){2}'.format(
+            re.escape(self._start),
+            re.escape(self.tag_name),
+            re.escape(self._end)
         )
         self.nocache_re = re.compile(self.nocache_pattern, re.U|re.S)
 
     def start(self, **data):
-        return self._start.format(self.pickle(data))
+        return '{0}{1}">'.format(self._start, self.pickle(data))
 
     def end(self):
         return self._end
-- 
2.43.0


From 72b3f041acf98354e6036f98241549e122726f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 20/27] fix: empty island of NoCache swallowed the text up to
 the next end marker

---
 cache_dependencies/nocache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index b469531..e5bcae6 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -36,7 +36,7 @@ class NoCache(object):
         )
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}([^"]+)">(.+?)(?!<{1}){2}'.format(
+        self.nocache_pattern = r'{0}([^"]+)">(.*?)(?!<{1}){2}'.format(
             re.escape(self._start),
             re.escape(self.tag_name),
             re.escape(self._end)
-- 
2.43.0


From a388c9d0121c0c0b93b71a6b177a1828fb5b648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 21/27] fix: functions and comprehensions in an island of
 NoCache did not see its variables

---
 cache_dependencies/nocache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index e5bcae6..3ce56f9 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -83,12 +83,12 @@ class NoCache(object):
             _globals.update(globals())
             _globals['echo'] = echo
 
-            _locals = {}
-            _locals.update(data)
-            _locals.update(self.unpickle(match.group(1)))
+            # One namespace, otherwise functions and comprehensions of the code don't see the variables.
+            _globals.update(data)
+            _globals.update(self.unpickle(match.group(1)))
 
             code = compile("\n".join(lines_stripped), '<string>', 'exec')
-            eval(code, _globals, _locals)
+            eval(code, _globals)
             result = stdout.getvalue()
             stdout.close()
             # After eval() nocache.start() will be converted to "<nocache:py ..."
-- 
2.43.0


From c14aecfd47e5e0c7de37ebef790081f35957db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:09 +0000
Subject: [PATCH 22/27] fix: file backend: a store is not lost when another
 process creates the directory

---
 django_cache_dependencies/backends.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 1389947..7389106 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -1,3 +1,4 @@
+import errno
 import os
 import random
 import time
@@ -30,7 +31,11 @@ class FileBasedCache(DjangoFileBasedCache):
 
         try:
             if not os.path.exists(dirname):
-                os.makedirs(dirname)
+                try:
+                    os.makedirs(dirname)
+                except OSError as e:
+                    if e.errno != errno.EEXIST:  # Another process was faster
+                        raise
 
             fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                        dir=dirname)
-- 
2.43.0


From 51a5f1789258152f169d5897f5309c95dfa1d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 23/27] fix: get_many() of hundreds of entries overflowed the
 stack

---
 cache_dependencies/defer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cache_dependencies/defer.py b/cache_dependencies/defer.py
index b33375d..ab8b43c 100644
--- a/cache_dependencies/defer.py
+++ b/cache_dependencies/defer.py
@@ -189,12 +189,14 @@ class AbstractDeferredIterator(collections.Iterator):
         return self
 
     def _delegate(self):
-        if self._node.parent:
-            delegate = iter(self._node.parent)
-            delegate.state = self.state
-            return next(delegate)
-        else:
-            raise StopIteration
+        node = self._node.parent
+        while node:  # Not by recursion, there are as many nodes as entries in the batch
+            delegate = iter(node)
+            if delegate._index < len(node.queue):
+                delegate.state = self.state
+                return next(delegate)
+            node = node.parent
+        raise StopIteration
 
     @property
     def state(self):
-- 
2.43.0


From 20b39aabd0d05b1beafc8951e3dedf90c16479ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 24/27] fix: an empty template fragment was rendered over a hit
 and lost the tags of nested fragments

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 46f5617..9e71fb5 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -76,7 +76,7 @@ class CacheNode(Node):
         cache_name = self.fragment_name.resolve(context)
         result = cache.get(cache_name)
 
-        if not result:
+        if result is None:  # An empty fragment is a hit, too
             timeout = None
             if self.timeout_var:
                 try:
-- 
2.43.0


From 40025f6431fbaa6e00771e7e138dcd030a2e5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 25/27] fix: a dependency of the deprecated package was altered
 by the entries it was given to

---
 cache_dependencies/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index 75345a2..9154f2c 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -102,7 +102,7 @@ class CompositeDependency(interfaces.IDependency):
 
     def __copy__(self):
         c = copy.copy(super(CompositeDependency, self))
-        c.delegates = c.delegates[:]
+        c.delegates = [copy.copy(delegate) for delegate in c.delegates]
         return c
 
 
-- 
2.43.0


From 83c46082c0cea470a930f9b341173124e1134d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 26/27] fix: entries stored while ignore_descendants is on
 passed their tags to the entry under construction

---
 cache_dependencies/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 31bfb16..610d89c 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -169,7 +169,9 @@ class CacheWrapper(object):  # Adapter
         :type dependency: cache_dependencies.interfaces.IDependency
         :type version: int or None
         """
-        self.relation_manager.pop(key).add_dependency(dependency, version)
+        node = self.relation_manager.pop(key)
+        if not self.ignore_descendants:
+            node.add_dependency(dependency, version)
 
     def close(self):
         self.transaction.flush()
-- 
2.43.0


From 2614e793322ef99a02cd24599f3513c473df92cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 27/27] fix: failure of the cache server at the end of a
 request left transactions and bookkeeping of the thread open

---
 cache_dependencies/cache.py           |  7 +++++--
 django_cache_dependencies/__init__.py | 11 +++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 610d89c..004ae93 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -174,8 +174,11 @@ class CacheWrapper(object):  # Adapter
             node.add_dependency(dependency, version)
 
     def close(self):
-        self.transaction.flush()
-        self.relation_manager.clear()
+        try:
+            self.transaction.flush()
+        finally:  # Also if the cache server fails: nobody else would drop it before the next request
+            self.transaction.current(None)
+            self.relation_manager.clear()
         # self.cache.close()  # should be closed directly or by signal, for example, request_finished in Django.
 
     @staticmethod
diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index 7ac4265..8e017ba 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -198,7 +198,14 @@ def autodiscover():
 
 
 def close_caches(**kwargs):
-    for cache in caches.all():
-        cache.close()
+    opened = list(caches.all())
+
+    def close_next():
+        if opened:
+            try:
+                opened.pop(0).close()
+            finally:  # Failure of one cache server should not leave other caches open
+                close_next()
+    close_next()
 
 core_signals.request_finished.connect(close_caches)
-- 
2.43.0

