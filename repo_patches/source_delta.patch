From a66f33131bcd52f44fce380bffb863aa12c82526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 01/53] fix: withhold forbidden entity headers of 204/304
 whatever their letter case

---
 ombott/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 1edafac..ac3962d 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -151,7 +151,7 @@ class BaseResponse:
         headers = self._headers.items()
         bad_headers = self.bad_headers.get(self._status_code)
         if bad_headers:
-            headers = (h for h in headers if h[0] not in bad_headers)
+            headers = (h for h in headers if h[0].title() not in bad_headers)
             need_ctype = False
         else:
             need_ctype = 'Content-Type' not in self._headers
-- 
2.43.0


From 86e3f6a2a9aab354d2428f7bb1fbd192a4655037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 02/53] fix: do not match a CR in the request path as a route
 wildcard

---
 ombott/router/radidict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 863bc77..a6cb639 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -397,7 +397,8 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        if c == c0:
+                        # the token in idx is not literal text
+                        if c == c0 and c != TOKEN:
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-- 
2.43.0


From 65f43f1640031744fe62a24f77cbe659f1f0768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 03/53] fix: keep rex filter selectors apart from literal text
 of rules and paths

---
 ombott/router/radidict.py   | 6 +++++-
 ombott/router/radirouter.py | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index a6cb639..2a0afad 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -20,6 +20,10 @@ HOOKS = 6
 DATA = 7
 OFFSET = 8
 
+# encloses a filter selector in route patterns;
+# lone surrogate, so it never occurs in (decoded) paths
+SELECTOR_MARK = '\udfff'
+
 
 # mismatch types
 class MismatchType(IntEnum):
@@ -428,7 +432,7 @@ class RadiDict:
                                 look_back.append(
                                     [route, pnode, i, L, params[:], hooks[:], False]
                                 )
-                                route = str(selector) + route[i:]
+                                route = f'{SELECTOR_MARK}{selector}{SELECTOR_MARK}{route[i:]}'
                                 i = 0
                                 L = len(route)
                                 selector = None
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 8905534..3c7e3fc 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -1,5 +1,5 @@
 from enum import IntEnum
-from .radidict import RadiDict, DATA, HOOKS
+from .radidict import RadiDict, DATA, HOOKS, SELECTOR_MARK
 from .filter_factory import FilterFactory
 from .errors import RouteBuildError, RouteMethodError
 from .parser import Parser
@@ -183,7 +183,9 @@ class Route:
         filters_out = []
         anon_counter = 0
         for part, param, filter, filter_args, filter_selector in cls.parser.iter_parse(rule):
-            filter_selector = filter_selector or ''
+            filter_selector = (
+                f'{SELECTOR_MARK}{filter_selector}{SELECTOR_MARK}' if filter_selector else ''
+            )
             if not part:  # it is param or/and filter
                 part = '\r'
                 if not param:
-- 
2.43.0


From 96a448c5376111246469a7f2cf86fb4eb14b791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 04/53] fix: pass a handler the wildcard names of the rule it
 was registered under

---
 ombott/router/radirouter.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 3c7e3fc..f667808 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -6,13 +6,16 @@ from .parser import Parser
 
 
 class RouteMethod:
-    __slots__ = ('route', 'name', 'handler', 'meta')
+    __slots__ = ('route', 'name', 'handler', 'meta', 'params')
 
-    def __init__(self, route, name, handler, meta=None):
+    def __init__(self, route, name, handler, meta=None, params=None):
         self.route = route
         self.name = name
         self.handler = handler
         self.meta = meta
+        # wildcard names of the rule the handler was registered under
+        # (rules of one route may differ in these names)
+        self.params = route.params if params is None else params
 
     def remove(self):
         self.route.remove_method(self.name)
@@ -110,14 +113,14 @@ class Route:
 
         return ''.join(ret)
 
-    def _set_methods(self, methods, handler, meta=None):
+    def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-            self._methods[meth] = RouteMethod(self, meth, handler, meta)
+            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None):
+    def set_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -133,11 +136,11 @@ class Route:
                 f'but there are already registered: `{registered_fullnames}`'
             )
 
-    def add_method(self, method, handler, meta=None):
+    def add_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
         self._raise_if_registered(method, handler)
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
         if isinstance(method, str):
@@ -318,7 +321,7 @@ class RadiRouter:
             return None, [404, 'Not Found', extra]
         try:
             meth = route[methods]
-            params = route.make_params_dict(extra['param_keys'], extra['param_values'])
+            params = route.make_params_dict(meth.params, extra['param_values'])
             return [meth, params, extra['hooks']], None
         except RouteMethodError:
             allowed = ",".join(sorted(route.methods))
@@ -375,6 +378,7 @@ class RadiRouter:
 
     def _add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
         route = Route(rule)
+        params = route.params
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
@@ -383,9 +387,9 @@ class RadiRouter:
             self.routes[route.pattern] = route
 
         if overwrite:
-            route.set_method(methods, handler, meta)
+            route.set_method(methods, handler, meta, params)
         else:
-            route.add_method(methods, handler, meta)
+            route.add_method(methods, handler, meta, params)
 
         if name:
             registered = self.named_routes.get(name)
-- 
2.43.0


From 72ee6d9db4ba1bf8b21354f92cef3c95a5ed5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 05/53] fix: treat method names of Route methods
 case-insensitively

---
 ombott/router/radirouter.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index f667808..5cd327a 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -113,13 +113,18 @@ class Route:
 
         return ''.join(ret)
 
+    @staticmethod
+    def _method_names(method):
+        if isinstance(method, str):
+            method = [method]
+        return [_.upper() for _ in method]
+
     def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
             self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
     def set_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._method_names(method)
         self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
@@ -137,14 +142,12 @@ class Route:
             )
 
     def add_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._method_names(method)
         self._raise_if_registered(method, handler)
         self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
-        if isinstance(method, str):
-            method = [method]
+        method = self._method_names(method)
         [self._methods.pop(m, None) for m in method]
 
     @property
@@ -152,8 +155,7 @@ class Route:
         return dict(self._methods)
 
     def __getitem__(self, method):
-        if isinstance(method, str):
-            method = [method]
+        method = self._method_names(method)
         for name in method:
             meth = self._methods.get(name)
             if meth:
-- 
2.43.0


From dba422f3e64f04d2d204b47988394faf8dcd73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 06/53] fix: build fullpath without resolving the path as a URL
 reference

---
 ombott/request_pkg/props_mixin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index cce942c..bbbff5a 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -2,7 +2,6 @@ import base64
 from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
-    urljoin,
     SplitResult as UrlSplitResult
 )
 
@@ -103,7 +102,7 @@ class PropsMixin:
     def fullpath(self):
         """ Request path including :attr:`script_name` (if present). """
         appname = self._env_get(self.config.app_name_header, '/')
-        return urljoin(self.script_name, self.path[len(appname):].lstrip('/'))
+        return self.script_name + self.path[len(appname):].lstrip('/')
 
     @property
     def query_string(self):
-- 
2.43.0


From a72928e98f84dc98879062596de04f4f619c0cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 07/53] fix: let a wildcard be named self

---
 ombott/router/radirouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 5cd327a..e340a1e 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -34,7 +34,7 @@ class RouteMethod:
     def __repr__(self):
         return '<{}:{} {}>'.format(self.route.rule, self.name, self.handler)
 
-    def __call__(self, *a, **kw):
+    def __call__(self, /, *a, **kw):
         return self.handler(*a, **kw)
 
 
-- 
2.43.0


From d4083590b6207ca16bbd4017f0444e85fac284a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 08/53] fix: check the parts of a built url in the context of
 the whole url

---
 ombott/router/radirouter.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index e340a1e..ae6684d 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -63,7 +63,7 @@ class Route:
         self.pattern_out = pattern_out
         self.filters_out = filters_out
 
-    def url(self, *args, **kw):
+    def url(self, /, *args, **kw):
 
         params = self.params
         if not params:
@@ -80,6 +80,8 @@ class Route:
         cidx = 0
         clen = 0
         end = 0
+        pos = 0
+        to_check = []
         for c in pattern_out:
             if c != '\r':
                 clen += 1
@@ -89,6 +91,7 @@ class Route:
                 end += clen
                 clen = 0
                 ret.append(pattern_out[cidx:end])
+                pos += len(ret[-1])
             cidx = end + 1
 
             pname = params[pidx]
@@ -104,14 +107,19 @@ class Route:
             if f_out:
                 prt = f_out(prt)
             if f_in:
-                assert f_in(prt)[1]  # `pos` must be > 0 if match
+                to_check.append([f_in, pos, len(prt)])
             ret.append(prt)
+            pos += len(prt)
 
         if clen:
             end = cidx + clen
             ret.append(pattern_out[cidx:end])
 
-        return ''.join(ret)
+        ret = ''.join(ret)
+        # filters may look ahead, so they are checked against the whole url
+        for f_in, pos, prt_len in to_check:
+            assert f_in(ret[pos:])[1] == prt_len
+        return ret
 
     @staticmethod
     def _method_names(method):
-- 
2.43.0


From c96e892da0af40e081f26e8c659903fe44e5a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 09/53] fix: write floats in positional notation when building
 a url

---
 ombott/router/filter_factory.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index ac25aa1..f44ea1f 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,4 +1,5 @@
 import re
+from decimal import Decimal
 
 
 class _RouteFilterExhaust:
@@ -26,12 +27,18 @@ def _rex(conf):
     return conf, f_in, None
 
 
+def _float_out(x):
+    # positional notation - the filter doesn't accept exponents
+    ret = format(Decimal(repr(float(x))), 'f')
+    return ret if '.' in ret else ret + '.0'
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', float, _float_out),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From bbde5b29c056c6a2df8ae440566ac6bc68300730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 10/53] fix: removing a route keeps its hook, removing a hook
 also clears it above other routes

---
 ombott/router/radidict.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 2a0afad..33dbbcf 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -349,14 +349,16 @@ class RadiDict:
         elif mismatch:
             return
 
-        if hooks_only and node[DATA] is not None:
+        if hooks_only:
             node[HOOKS] = None
-            return
+            if node[DATA] is not None:
+                return
 
         stack.reverse()
         assert node is stack[0]
-        node[DATA] = None
-        node[PARAMS] = []
+        if not hooks_only:
+            node[DATA] = None
+            node[PARAMS] = []
         key0_to_del = None
         for node in stack:
             if key0_to_del:
@@ -368,7 +370,7 @@ class RadiDict:
                 node[IDX] = node[IDX].replace(key0_to_del, '')
                 del node[OFFSET + kidx]
                 self._try_merge(node)
-            if not (node[DATA] or node[IDX]):
+            if not (node[DATA] or node[HOOKS] or node[IDX]):
                 key0_to_del = node[KEY][0]
             else:
                 break
-- 
2.43.0


From 97ca7298591524cda9bb3f2863d5f9a558aa1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:40 +0000
Subject: [PATCH 11/53] fix: leave the router unchanged when a route is
 rejected for its name

---
 ombott/router/radirouter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index ae6684d..beeefd7 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -390,6 +390,10 @@ class RadiRouter:
         route = Route(rule)
         params = route.params
         route_ = self._match(route.pattern, route.filters)
+        if name and not overwrite:
+            registered = self.named_routes.get(name)
+            if registered and registered is not route_:
+                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
         if route_:
             route = route_
         else:
@@ -402,9 +406,6 @@ class RadiRouter:
             route.add_method(methods, handler, meta, params)
 
         if name:
-            registered = self.named_routes.get(name)
-            if not overwrite and registered and registered is not route:
-                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
             self.named_routes[name] = route
         return route
 
-- 
2.43.0


From 57f935d769d03a465eac16118b1e6f1f0ff41473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 12/53] fix: removing a route by name drops its other names and
 nothing but the route

---
 ombott/router/radidict.py   |  4 ++--
 ombott/router/radirouter.py | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 33dbbcf..6e67e98 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -326,10 +326,10 @@ class RadiDict:
             hooks = hooks, params = params, overwrite = overwrite
         )
 
-    def remove(self, route_pattern, hooks_only=False):
+    def remove(self, route_pattern, hooks_only=False, allow_wildcard=True):
 
         is_wildcard = False
-        if route_pattern and route_pattern[-1] == '*':
+        if allow_wildcard and route_pattern and route_pattern[-1] == '*':
             route_pattern = route_pattern[:-1]
             is_wildcard = True
             if hooks_only:
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index beeefd7..2f0019b 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -291,12 +291,14 @@ class RadiRouter:
             else:
                 route_pattern = route.pattern
         elif name is not None:
-            route = self.named_routes.pop(name)
+            route = self.named_routes[name]
             route_pattern = route.pattern
 
-        self.radidict.remove(route_pattern)
-        if route:
-            del self.routes[route.pattern]
+        # `*` in the pattern of a given route is literal text
+        self.radidict.remove(route_pattern, allow_wildcard=route is None)
+        if route is not None:
+            del self.routes[route_pattern]
+            self._remove_named_routers({route_pattern})
         else:
             if route_pattern.endswith('*'):
                 route_pattern = route_pattern[:-1]
-- 
2.43.0


From 508acb56b8d7cd75030da4bf20ac048c6f59ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 13/53] fix: reject a rule with equal wildcard names before it
 leaves traces in the router

---
 ombott/router/radirouter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 2f0019b..bd8a3dd 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -59,6 +59,7 @@ class Route:
         self.pattern = pattern  # never starts from '/'
         self.params = params
         self.filters = filters
+        self.make_signature(params, filters)  # raises if a name is used twice
 
         self.pattern_out = pattern_out
         self.filters_out = filters_out
@@ -170,8 +171,15 @@ class Route:
                 return meth
         raise RouteMethodError()
 
+    @staticmethod
+    def make_signature(params, filters):
+        ret = {name: [False, filter] for name, filter in zip(params, filters)}
+        if len(ret) != len(params):
+            raise RouteBuildError(f'Wildcard names must be unique within a rule: {params}')
+        return ret
+
     def params_signature(self):
-        return {name: [False, filter] for name, filter in zip(self.params, self.filters)}
+        return self.make_signature(self.params, self.filters)
 
     def __call__(self, method, *a, **kw):
         return self[method](*a, **kw)
@@ -352,7 +360,7 @@ class RadiRouter:
         route_hooks = self._match(route_pattern = route_pattern, get_hooks = True)
         new_route_hooks = self.hook_installer(route_hooks, *args, **kwargs)
         if new_route_hooks is not None and new_route_hooks is not route_hooks:
-            params = {name: [False, filter] for name, filter in zip(params, filters)}
+            params = Route.make_signature(params, filters)
             self.radidict.add_hooks(route_pattern, new_route_hooks, params)
             self.hooks[route_pattern] = new_route_hooks
         return route_pattern
-- 
2.43.0


From 6400eb5ac8213e539826984fc2b364b60a987f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 14/53] fix: report hook positions behind a rex selector
 relative to the path

---
 ombott/router/radidict.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 6e67e98..e1cefdb 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -389,6 +389,7 @@ class RadiDict:
         do_look_back = False
         selector = None
         i = 0
+        offset = 0  # of `route` within the given one (differs once a selector has been inserted)
         while True:
             while i < L:
                 idx = pnode[IDX]
@@ -429,12 +430,14 @@ class RadiDict:
                             pnode = token_node
                             h = pnode[HOOKS]
                             if h:
-                                hooks.append([i, h])
+                                hooks.append([i + offset, h])
                             if selector is not None:
                                 look_back.append(
-                                    [route, pnode, i, L, params[:], hooks[:], False]
+                                    [route, pnode, i, L, offset, params[:], hooks[:], False]
                                 )
-                                route = f'{SELECTOR_MARK}{selector}{SELECTOR_MARK}{route[i:]}'
+                                selector = f'{SELECTOR_MARK}{selector}{SELECTOR_MARK}'
+                                route = selector + route[i:]
+                                offset += i - len(selector)
                                 i = 0
                                 L = len(route)
                                 selector = None
@@ -447,7 +450,7 @@ class RadiDict:
                 # regular logic
                 if idx[-1] == TOKEN:
                     look_back.append(
-                        [route, pnode, i, L, params[:], hooks[:], True]
+                        [route, pnode, i, L, offset, params[:], hooks[:], True]
                     )
                 pnode = pnode[OFFSET + kidx]
                 key = pnode[KEY]
@@ -456,7 +459,7 @@ class RadiDict:
                     i = key_end
                     h = pnode[HOOKS]
                     if h:
-                        hooks.append([i, h])
+                        hooks.append([i + offset, h])
                 else:
                     break  # while
 
@@ -474,7 +477,7 @@ class RadiDict:
                 # this is partial match => try look_back
 
             if look_back:
-                route, pnode, i, L, params, hooks, look_type = look_back.pop()
+                route, pnode, i, L, offset, params, hooks, look_type = look_back.pop()
                 do_look_back = look_type
             else:
                 return None if not allow_partial else (
-- 
2.43.0


From f4919abb387b6f3fb3224685d6281939df4b10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 15/53] fix: an undecodable path is answered from this
 request's state

The 400 for a path that is not UTF-8 was returned before the request and
response objects were initialised for the request, so the error page and
the headers came from the previous request on the thread.
---
 ombott/ombott.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index bb71528..015fc79 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -259,16 +259,15 @@ class Ombott:
         response = self.response
         request = self.request
 
-        path = environ['ombott.raw_path'] = environ['PATH_INFO']
-        try:
-            path = path.encode('latin1').decode('utf8')
-        except UnicodeError:
-            return HTTPError(400, 'Invalid path string. Expected UTF-8')
-        environ['PATH_INFO'] = path
         try:  # init thread
             environ['ombott.app'] = self
             request.__init__(environ)
             response.__init__()
+            path = environ['ombott.raw_path'] = environ['PATH_INFO']
+            try:
+                environ['PATH_INFO'] = path.encode('latin1').decode('utf8')
+            except UnicodeError:
+                return HTTPError(400, 'Invalid path string. Expected UTF-8')
             try:  # routing
                 self.emit('before_request')
                 route, kwargs, route_hooks = (None, None, None)
-- 
2.43.0


From ae649b2657716befebad0d6c489e654fc515c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 16/53] fix: JSON error pages withhold exception and traceback
 unless debug

The HTML page already does; the JSON body reflected exception text, which
may carry request data, with debug off.
---
 ombott/ombott.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 015fc79..1302a07 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -221,10 +221,11 @@ class Ombott:
 
     def default_error_handler(self, res):
         if self.request.is_json_requested:
+            debug = self.config.debug
             ret = json.dumps(dict(
                 body = res.body,
-                exception = repr(res.exception),
-                traceback = res.traceback
+                exception = repr(res.exception) if debug else None,
+                traceback = res.traceback if debug else None
             ))
             self.response.headers['Content-Type'] = 'application/json'
         else:
-- 
2.43.0


From 96e7f923b9f81ce48d62bd900d4ed75da46db773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 17/53] fix: no body for any 1xx status nor for any response to
 HEAD

Only 100 and 101 were treated as bodiless; a method written in another
letter case is routed as HEAD but was answered with a body, and so was
HEAD when the critical error page was sent.
---
 ombott/ombott.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 1302a07..527f734 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -371,6 +371,10 @@ class Ombott:
                 new_iter = _closeiter(new_iter, close)
             return new_iter
 
+    @staticmethod
+    def _is_head(environ):
+        return environ.get('REQUEST_METHOD', 'GET').upper() == 'HEAD'
+
     def wsgi(self, environ, start_response):
         config: DefaultConfig = self.config
         response = self.response
@@ -385,10 +389,8 @@ class Ombott:
         try:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
-            if (
-                response._status_code in {100, 101, 204, 304}
-                or environ['REQUEST_METHOD'] == 'HEAD'
-            ):
+            code = response._status_code
+            if code < 200 or code in {204, 304} or self._is_head(environ):
                 close = getattr(out, 'close', None)
                 if close:
                     close()
@@ -412,7 +414,7 @@ class Ombott:
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [tob(err)]
+            return [] if self._is_head(environ) else [tob(err)]
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From 8186ef0cde0d632ac4ce8705503c3c6d5f055809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 18/53] fix: a missing PATH_INFO is the empty path

PEP 3333 allows an empty PATH_INFO to be absent.
---
 ombott/ombott.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 527f734..4c5cde6 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -264,7 +264,7 @@ class Ombott:
             environ['ombott.app'] = self
             request.__init__(environ)
             response.__init__()
-            path = environ['ombott.raw_path'] = environ['PATH_INFO']
+            path = environ['ombott.raw_path'] = environ.get('PATH_INFO', '')
             try:
                 environ['PATH_INFO'] = path.encode('latin1').decode('utf8')
             except UnicodeError:
@@ -384,7 +384,7 @@ class Ombott:
             app_name = domain_map(environ.get('HTTP_X_FORWARDED_HOST') or environ.get('HTTP_HOST'))
             if app_name:
                 environ[config.app_name_header] = '/' + app_name
-                environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
+                environ["PATH_INFO"] = '/' + app_name + environ.get("PATH_INFO", '')
 
         try:
             out = self._cast(self._handle(environ))
-- 
2.43.0


From 2193a7d4fa4066b4b5cdf55596fb989f41659647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 19/53] fix: reject malformed status lines

A status string with control characters, without a three-digit code or
without a reason phrase was handed to the server as it is.
---
 ombott/response.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index ac3962d..b769445 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -137,7 +137,13 @@ class BaseResponse:
             code, status = status, _HTTP_STATUS_LINES.get(status)
         elif ' ' in status:
             status = status.strip()
-            code = int(status.split()[0])
+            code, _, reason = status.partition(' ')
+            if not (len(code) == 3 and code.isascii() and code.isdigit() and reason):
+                raise ValueError('Status line must be a three-digit code and a reason phrase.')
+            if any(c < ' ' or c == '\x7f' for c in status):
+                raise ValueError('Status line must not contain control characters.')
+            status.encode('latin1')  # UnicodeEncodeError is a ValueError
+            code = int(code)
         else:
             raise ValueError('String status line without a reason phrase.')
         if not 100 <= code <= 999:
-- 
2.43.0


From 07825279dc15aa145c928b4387a6659b2aa804f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 20/53] fix: close the handler's iterable when the response
 cannot be started

Assembling the header list may fail after the body was prepared; the
critical error page was sent and the iterable never closed.
---
 ombott/ombott.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 4c5cde6..99c26c8 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -387,19 +387,23 @@ class Ombott:
                 environ["PATH_INFO"] = '/' + app_name + environ.get("PATH_INFO", '')
 
         try:
+            out = None
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
             code = response._status_code
             if code < 200 or code in {204, 304} or self._is_head(environ):
                 close = getattr(out, 'close', None)
+                out = []
                 if close:
                     close()
-                out = []
             start_response(response._status_line, response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as _e:
+            close = getattr(out, 'close', None)
+            if close:
+                close()
             if not self.config.catchall:
                 raise
 
-- 
2.43.0


From 8d427d63b94f7cd37b728a07fddf826ba1ec46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 21/53] fix: encode the first chunk of a text stream before
 starting the response

The charset was looked up and the first chunk encoded while the server
iterated, so an unknown charset or unencodable text escaped to the server
after the response was started.
---
 ombott/ombott.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 99c26c8..318412b 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -362,7 +362,8 @@ class Ombott:
             elif isinstance(first, bytes):
                 new_iter = itertools.chain([first], iout)
             elif isinstance(first, str):
-                new_iter = (it.encode(response.charset) for it in itertools.chain([first], iout))
+                charset = response.charset
+                new_iter = itertools.chain([first.encode(charset)], (it.encode(charset) for it in iout))
             else:
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
-- 
2.43.0


From d54667e194836ff4b8ee01a7586f4b265f9c612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 22/53] fix: a failing after_request hook does not stop the
 other ones

---
 ombott/ombott.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 318412b..3e1a8cd 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -192,6 +192,17 @@ class Ombott:
     def emit(self, name, *args, **kwargs):
         [hook(*args, **kwargs) for hook in self._hooks[name][:]]
 
+    def _emit_after_request(self):
+        ''' Every hook runs; the first failure is raised afterwards. '''
+        error = None
+        for hook in self._hooks['after_request'][:]:
+            try:
+                hook()
+            except Exception as err:
+                error = error or err
+        if error is not None:
+            raise error
+
     def on_route(self, rule, func=None):
         if not func:  # used as decorator
             def decorator(func):
@@ -280,7 +291,7 @@ class Ombott:
                     environ['route.hooks'] = route_hooks
                 return self.handler(self, route, kwargs, route_hooks, error404_405)
             finally:
-                self.emit('after_request')
+                self._emit_after_request()
         except HTTPResponse as resp:
             return resp
         except (KeyboardInterrupt, SystemExit, MemoryError):
-- 
2.43.0


From 5e210396f1e8a9db6af08bc52904e827f5b8981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 23/53] fix: close a text stream whose first chunk cannot be
 encoded

---
 ombott/ombott.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 3e1a8cd..fdbf536 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -374,7 +374,13 @@ class Ombott:
                 new_iter = itertools.chain([first], iout)
             elif isinstance(first, str):
                 charset = response.charset
-                new_iter = itertools.chain([first.encode(charset)], (it.encode(charset) for it in iout))
+                try:
+                    first = first.encode(charset)
+                except Exception:
+                    if hasattr(out, 'close'):
+                        out.close()
+                    raise
+                new_iter = itertools.chain([first], (it.encode(charset) for it in iout))
             else:
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
-- 
2.43.0


From 2c71ad3b425cc7be1a467af456d82a62499b1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 24/53] fix: ignore a multipart epilogue that arrives in a
 buffer of its own

The part of the epilogue read together with the closing delimiter was
ignored, the next buffer was an error.
---
 ombott/request_pkg/multipart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 29b6f4e..21b34ec 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -185,8 +185,8 @@ class BodyMarkuper:
         self.stopped = False
 
     def iter_markup(self, chunk: bytes) -> Iterable[Tuple[str, Tuple[int, int]]]:
-        if self.stopped:
-            raise StopMarkupException()
+        if self.stopped:  # the epilogue is ignored
+            return
         cur_meth = self.cur_meth
         abs_start_section = self.abs_start_section
         start_next_sec = 0
-- 
2.43.0


From 1b3cdf2604b408c2353cc7d9b2134af565c94850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 25/53] fix: parse the two bytes after a multipart boundary
 independently of buffers

A buffer boundary inside the closing hyphens was an error when anything
followed, and a malformed delimiter was an error or not depending on
where the buffer ended.
---
 ombott/request_pkg/multipart.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 21b34ec..81ccb10 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -90,13 +90,13 @@ class HeadersEaeter:
         return pos
 
     def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
         if chunk_start == HYPHEN:
             self.stopped = True
             return base + 1
-        raise UnexpectedBodyEndError(f'Last hyphen was expected, got (first 2 symbols slice): {chunk_start}')
+        raise UnexpectedBodyEndError(f'Last hyphen was expected, got: {chunk_start}')
 
     def _eat_lf(self, chunk: bytes, base: int) -> Optional[int]:
         chunk_start = chunk[base: base + 1]
@@ -108,21 +108,14 @@ class HeadersEaeter:
         raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
 
     def _eat_first_crlf_or_last_hyphens(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
 
-        if chunk_start == CRLF:
-            return base + 2
-
-        if len(chunk_start) == 1:
-            self.eat_meth = self._meth_map.get(chunk_start)
-        elif chunk_start == HYPHENx2:
-            self.stopped = True
-            return base + 2
-
+        self.eat_meth = self._meth_map.get(chunk_start)
         if self.eat_meth is None:
             raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
+        return self.eat_meth(chunk, base + 1)
 
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
-- 
2.43.0


From ced324b3e2b4cf078e6e774be9167afbc098d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 26/53] fix: find the end of multipart headers independently of
 buffers

A bare LF at the end of a buffer was taken for a part of the separator,
and a CR after a line end was an error only at the end of a buffer.
---
 ombott/request_pkg/multipart.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 81ccb10..059622e 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -60,7 +60,7 @@ CRLFx2 = CRLF * 2
 CRLFx2_LEN = len(CRLFx2)
 
 
-end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)$')
+end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)\Z')
 
 
 class HeadersEaeter:
@@ -121,7 +121,7 @@ class HeadersEaeter:
         expected: bytes = self.headers_end_expected
         if expected is not None:
             expected_len = len(expected)
-            chunk_start = chunk[base:expected_len]
+            chunk_start = chunk[base: base + expected_len]
             if chunk_start == expected:
                 self.headers_end_expected = None
                 return base + expected_len - CRLFx2_LEN
@@ -132,16 +132,7 @@ class HeadersEaeter:
                 if expected.startswith(chunk_start):
                     self.headers_end_expected = expected[chunk_start_len:]
                     return
-                self.headers_end_expected = None
-
-            if expected == LF:  # we saw CRLFCR
-                invalid_sequence = CR + chunk_start[0:1]
-                # NOTE we don not catch all CRLF-malformed errors, but only obvious ones
-                # to stop doing useless work
-                raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
-            else:
-                assert expected_len >= 2  # (CR)LFCRLF or (CRLF)CRLF
-                self.headers_end_expected = None
+            self.headers_end_expected = None
 
         assert self.headers_end_expected is None
 
-- 
2.43.0


From 217033c5114cef6c08ec806362e4fad23b344507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 27/53] fix: look at the first byte of a multipart body only
 once

When no delimiter was pending at the end of a buffer, the start of the
next one was checked as if it were the start of the body.
---
 ombott/request_pkg/multipart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 059622e..60faf3e 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -160,6 +160,7 @@ class BodyMarkuper:
         self.tlen = len(token)
         self.token = token
         self.trest = self.trest_len = None
+        self.started = False
         self.mt = MatchTail(token)
         self.abspos = 0
         self.abs_start_section = 0
@@ -219,11 +220,12 @@ class BodyMarkuper:
         self.abs_start_section = abs_start_section
 
     def _eat_start_boundary(self, chunk: bytes, base: int):
-        if self.trest is None:
+        if not self.started:
             chunk_start = chunk[base: base + 1]
             if not chunk_start:
                 return
 
+            self.started = True
             if chunk_start == CR:
                 return self._eat_data(chunk, base)
 
-- 
2.43.0


From 002e732df2c34203808ddf76cb682b4f746345af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 28/53] fix: count the bytes a body stream really delivered

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3f8b890..b7f375c 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -26,7 +26,7 @@ def _iter_body(read, buff_size, *, content_length):
         if not part:
             break
         yield part
-        rest_len -= part_size
+        rest_len -= len(part)
 
 
 def _iter_chunked(read, buff_size):
-- 
2.43.0


From 311b92ad3feb57cc37084e6f96ac6b45f57bf0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 29/53] fix: decode chunked bodies independently of short reads

---
 ombott/request_pkg/body_mixin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index b7f375c..49f6cb3 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -73,9 +73,10 @@ def _iter_chunked(read, buff_size):
             if not part:
                 raise parsing_err
             yield part
-            rest_len -= part_size
-        if read(2) != rn:
-            raise parsing_err
+            rest_len -= len(part)
+        for c in (r, n):
+            if read(1) != c:
+                raise parsing_err
 
 
 def _body_read(
-- 
2.43.0


From 1e174f310329ff0a0a227ca4502c3f2f6cb1fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 30/53] fix: accept hex digits only as a chunk size

---
 ombott/request_pkg/body_mixin.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 49f6cb3..b5c4b58 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -15,6 +15,7 @@ from .helpers import (
 from .errors import RequestError, BodyParsingError, BodySizeError
 
 
+HEXDIGITS = b'0123456789abcdefABCDEF'
 MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
 
 
@@ -58,11 +59,10 @@ def _iter_chunked(read, buff_size):
                 continue
             header_size_buff.append(c)
 
-        chunk_size = b''.join(header_size_buff)
-        try:
-            rest_len = int(chunk_size.strip(), 16)
-        except ValueError:
+        chunk_size = b''.join(header_size_buff).strip()
+        if not chunk_size or chunk_size.strip(HEXDIGITS):
             raise parsing_err
+        rest_len = int(chunk_size, 16)
         if rest_len == 0:
             break
 
-- 
2.43.0


From e0c7822168c7b812fb114dc1bf607a58af99cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 31/53] fix: do not cut a chunked form at Content-Length

---
 ombott/request_pkg/body_mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index b5c4b58..fa3db2e 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -269,7 +269,8 @@ class BodyMixin:
         self._body.seek(0)
         read = self._body.read
         max_content_length = self.config.max_memfile_size
-        content_length = self.content_length
+        # Content-Length says nothing about a chunked body
+        content_length = -1 if self.chunked else self.content_length
 
         if content_length > max_content_length:
             raise self._raise(BodySizeError(), RequestError)
-- 
2.43.0


From a8f8ad912fc6bccccbee4e8c85825f1fdea20f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 32/53] fix: answer an unreadable Content-Length with a client
 error

---
 ombott/request_pkg/body_mixin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index fa3db2e..8aa30af 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -110,7 +110,10 @@ class BodyMixin:
         ''' The request body length as an integer. The client is responsible to
             set this header. Otherwise, the real length of the body is unknown
             and -1 is returned. In this case, :attr:`body` will be empty. '''
-        return int(self.environ.get('CONTENT_LENGTH') or -1)
+        try:
+            return int(self.environ.get('CONTENT_LENGTH') or -1)
+        except ValueError as err:
+            self._raise(BodyParsingError(f'Invalid Content-Length: {err}'), RequestError)
 
     @cache_in('environ[ ombott.request.content_type ]', read_only=True)
     def content_type(self):
-- 
2.43.0


From 55131dbf3d0a295809928377fe38ab61ee148a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 33/53] fix: answer an unreadable JSON body with a client error

---
 ombott/request_pkg/body_mixin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 8aa30af..f17dcfc 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -162,7 +162,10 @@ class BodyMixin:
             b = self._get_body_string()
             if not b:
                 return None
-            return json_mod.loads(b)
+            try:
+                return json_mod.loads(b)
+            except (ValueError, RecursionError) as err:
+                self._raise(RequestError(f'Invalid JSON: {err}'), RequestError)
         return None
 
     @cache_in('environ[ ombott.request.post ]', read_only=True)
-- 
2.43.0


From ec7908972500bf5673db37dcfe34f3a10e7e7f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 34/53] fix: present a JSON body without an object as an empty
 form

---
 ombott/request_pkg/body_mixin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index f17dcfc..d470333 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -184,7 +184,9 @@ class BodyMixin:
         ctype = self.content_type
         if not ctype.startswith('multipart/'):
             if ctype.startswith('application/json'):
-                post.update(self.json)
+                data = self.json
+                if isinstance(data, dict):
+                    post.update(data)
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
-- 
2.43.0


From 5acb68a32b8173dcfca73bfdbbad86aaaa05d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 35/53] fix: take the text of quoted multipart header
 parameters literally

---
 ombott/request_pkg/multipart.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 60faf3e..1916c73 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -382,6 +382,24 @@ class BytesIOProxy:
         pass
 
 
+# `key="quoted text"`, `key=text` or `key`, the quoted text is taken literally
+option_patt = re.compile(r'([^;=]*)(?:=\s*"([^"]*)"\s*(?:;|\Z)|=([^;]*)(?:;|\Z)|;|\Z)')
+
+
+def parse_options(s: str) -> Tuple[str, Dict[str, Optional[str]]]:
+    """ Split `value; key=text; key="quoted text"` into the value and the options. """
+    value, _, rest = s.partition(';')
+    options = {}
+    for m in option_patt.finditer(rest):
+        key, quoted, text = m.groups()
+        key = key.strip().lower()
+        if key:
+            if quoted is None and text is not None:
+                quoted = text.strip().strip('"')
+            options[key] = quoted
+    return value.strip(), options
+
+
 class Header(SimpleNamespace):
     name: str
     value: str
@@ -390,8 +408,6 @@ class Header(SimpleNamespace):
 
 class FieldStorage:
 
-    _patt = re.compile('(.+?)(=(.+?))?(;|$)')
-
     name: str
     value: Optional[str]
     filename: Optional[str]
@@ -448,16 +464,8 @@ class FieldStorage:
     @classmethod
     def parse_header(cls, s: str):
         htype, rest = s.split(':', 1)
-        opt_iter = cls._patt.finditer(rest)
-        hvalue = next(opt_iter).group(1).strip()
-        dct = {}
-        for it in opt_iter:
-            k = it.group(1).strip()
-            v = it.group(3)
-            if v is not None:
-                v = v.strip('"')
-            dct[k.lower()] = v
-        return Header(name=htype, value=hvalue, options=dct)
+        hvalue, options = parse_options(rest)
+        return Header(name=htype, value=hvalue, options=options)
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From 27151293aa9f0f9a22eeb0685b98ad724cc55692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 36/53] fix: separate multipart headers by CRLF only

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 1916c73..fe90a09 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -434,7 +434,7 @@ class FieldStorage:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
         headers_raw = src.read(sz).decode()
-        for header_raw in headers_raw.splitlines():
+        for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             if header.name == 'Content-Disposition':
-- 
2.43.0


From a83beec1bf125bd189661fab8ec5fe707ae375cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 37/53] fix: compare multipart header names case-insensitively

---
 ombott/request_pkg/multipart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index fe90a09..3625b27 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -437,10 +437,11 @@ class FieldStorage:
         for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
-            if header.name == 'Content-Disposition':
+            name = header.name.title()
+            if name == 'Content-Disposition':
                 self.name = header.options['name']
                 self.filename = header.options.get('filename')
-            elif header.name == 'Content-Type':
+            elif name == 'Content-Type':
                 self.ctype = header.value
 
         if self.name is None:
-- 
2.43.0


From a707f37c17102e570046f2f0cde65ef1aaa79cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 38/53] fix: give uploads their headers as strings

---
 ombott/request_pkg/body_mixin.py | 2 +-
 ombott/request_pkg/multipart.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index d470333..8a95a08 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -210,7 +210,7 @@ class BodyMixin:
             if item.filename:
                 it = FileUpload(
                     item.file, item.name,
-                    item.filename, item.headers
+                    item.filename, {h.name.title(): h.raw for h in item.headers.values()}
                 )
                 dct = files
             else:
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 3625b27..90b4353 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -404,6 +404,7 @@ class Header(SimpleNamespace):
     name: str
     value: str
     options: Dict[str, str]
+    raw: str
 
 
 class FieldStorage:
@@ -466,7 +467,7 @@ class FieldStorage:
     def parse_header(cls, s: str):
         htype, rest = s.split(':', 1)
         hvalue, options = parse_options(rest)
-        return Header(name=htype, value=hvalue, options=options)
+        return Header(name=htype, value=hvalue, options=options, raw=rest.strip())
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From 52b675604810d2a8c506b9172045c34fafe5186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 39/53] fix: treat an upload with an empty filename as an
 upload

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 8a95a08..11213cc 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -207,7 +207,7 @@ class BodyMixin:
             raise markup.error
         listified = set()
         for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
-            if item.filename:
+            if item.filename is not None:
                 it = FileUpload(
                     item.file, item.name,
                     item.filename, {h.name.title(): h.raw for h in item.headers.values()}
-- 
2.43.0


From b1262e2126a8070d268604d306b1a54d2a8029a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 40/53] fix: report malformed multipart headers and text as
 parsing errors

---
 ombott/request_pkg/multipart.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 90b4353..d302f35 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -434,13 +434,13 @@ class FieldStorage:
         if has_read > max_read:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
-        headers_raw = src.read(sz).decode()
+        headers_raw = self.decode(src.read(sz))
         for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             name = header.name.title()
             if name == 'Content-Disposition':
-                self.name = header.options['name']
+                self.name = header.options.get('name')
                 self.filename = header.options.get('filename')
             elif name == 'Content-Type':
                 self.ctype = header.value
@@ -458,14 +458,23 @@ class FieldStorage:
                 if has_read > max_read:
                     raise BodySizeError('Max in-memory read limit exceed')
                 src.seek(start)
-                self.value = src.read(sz).decode()
+                self.value = self.decode(src.read(sz))
             else:
                 self.value = ''
         return has_read
 
+    @staticmethod
+    def decode(raw: bytes) -> str:
+        try:
+            return raw.decode()
+        except UnicodeDecodeError as err:
+            raise BodyParsingError(f'Malformed text in multipart/formdata: {err}')
+
     @classmethod
     def parse_header(cls, s: str):
-        htype, rest = s.split(':', 1)
+        htype, colon, rest = s.partition(':')
+        if not colon:
+            raise BodyParsingError(f'Malformed multipart/formdata header, no colon found: {s}')
         hvalue, options = parse_options(rest)
         return Header(name=htype, value=hvalue, options=options, raw=rest.strip())
 
-- 
2.43.0


From 5d9e36bdc132b9b95c0f44c92f1dea21962b9393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 41/53] fix: answer malformed multipart bodies with a client
 error

---
 ombott/request_pkg/body_mixin.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 11213cc..cfcb08c 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -176,7 +176,7 @@ class BodyMixin:
 
         """
         env = self.environ
-        files = env['ombott.request.files'] = self._forms_factory()
+        files = self._forms_factory()
         post = self._forms_factory()
 
         # We default to application/x-www-form-urlencoded for everything that
@@ -192,21 +192,24 @@ class BodyMixin:
                     touni(self._get_body_string(), 'latin1'),
                     setitem=post.__setitem__
                 )
+            env['ombott.request.files'] = files
             env['ombott.request.forms'] = post
             return post
 
-        forms = env['ombott.request.forms'] = self._forms_factory()
+        forms = self._forms_factory()
 
         body = self.body
         markup: MultipartMarkup = body.ombott_markup
-        if markup is None:
-            # should never happen since we check content-type
-            # when reading body
-            raise BodyParsingError()
-        elif markup.error is not None:
-            raise markup.error
+        try:
+            if markup is None:
+                raise BodyParsingError('No boundary in the multipart content type')
+            elif markup.error is not None:
+                raise markup.error
+            items = list(FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size))
+        except RequestError as err:
+            self._raise(err, RequestError)
         listified = set()
-        for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
+        for item in items:
             if item.filename is not None:
                 it = FileUpload(
                     item.file, item.name,
@@ -226,6 +229,8 @@ class BodyMixin:
                 el.append(it)
             else:
                 post[key] = dct[key] = it
+        env['ombott.request.files'] = files
+        env['ombott.request.forms'] = forms
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
-- 
2.43.0


From f5efbe27edbb8008dd86546a8dce69e05901147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 42/53] fix: keep texts and uploads of the same name apart

---
 ombott/request_pkg/body_mixin.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index cfcb08c..f3447da 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -208,7 +208,6 @@ class BodyMixin:
             items = list(FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size))
         except RequestError as err:
             self._raise(err, RequestError)
-        listified = set()
         for item in items:
             if item.filename is not None:
                 it = FileUpload(
@@ -221,14 +220,13 @@ class BodyMixin:
                 dct = forms
             key = item.name
 
-            if key in post:
-                el = post[key]
-                if key not in listified:
-                    el = post[key] = dct[key] = [el]
-                    listified.add(key)
-                el.append(it)
-            else:
-                post[key] = dct[key] = it
+            for dct in (dct, post):
+                if key not in dct:
+                    dct[key] = it
+                elif isinstance(dct[key], list):
+                    dct[key].append(it)
+                else:
+                    dct[key] = [dct[key], it]
         env['ombott.request.files'] = files
         env['ombott.request.forms'] = forms
         return post
-- 
2.43.0


From e3d7d895948d66c5de3a80237a607082bf8d374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 43/53] fix: recognise every spelling of the multipart boundary

---
 ombott/request_pkg/body_mixin.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index f3447da..847d312 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -2,10 +2,9 @@ import json as json_mod
 from tempfile import TemporaryFile
 from io import BytesIO
 from functools import partial
-import re
 
 from ..common_helpers import touni
-from .multipart import MultipartMarkup, FieldStorage
+from .multipart import MultipartMarkup, FieldStorage, parse_options
 
 from .helpers import (
     parse_qsl,
@@ -16,7 +15,6 @@ from .errors import RequestError, BodyParsingError, BodySizeError
 
 
 HEXDIGITS = b'0123456789abcdefABCDEF'
-MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
 
 
 def _iter_body(read, buff_size, *, content_length):
@@ -253,10 +251,10 @@ class BodyMixin:
     @cache_in('environ[ ombott.request.body ]', read_only=True)
     def _body(self):
         markup = None
-        mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
-        if mp is not None:
-            markup = MultipartMarkup(mp.group(1))
+        ctype, options = parse_options(self.environ.get('CONTENT_TYPE', ''))
         try:
+            if ctype.lower().startswith('multipart/') and options.get('boundary'):
+                markup = MultipartMarkup(options['boundary'])
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
-- 
2.43.0


From 1b20042efff483409fce455b9355fd3c43041a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 44/53] fix: do not read on after a broken or oversized body

---
 ombott/request_pkg/body_mixin.py | 4 ++++
 ombott/request_pkg/request.py    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 847d312..4eeb760 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -251,6 +251,9 @@ class BodyMixin:
     @cache_in('environ[ ombott.request.body ]', read_only=True)
     def _body(self):
         markup = None
+        err = self.environ.get('ombott.request.body_error')
+        if err is not None:  # the rest of the stream is not the body
+            self._raise(err, RequestError)
         ctype, options = parse_options(self.environ.get('CONTENT_TYPE', ''))
         try:
             if ctype.lower().startswith('multipart/') and options.get('boundary'):
@@ -265,6 +268,7 @@ class BodyMixin:
             )
             body.ombott_markup = markup
         except RequestError as err:
+            self.environ['ombott.request.body_error'] = err.with_traceback(None)
             self._raise(err, RequestError)
         self.environ['wsgi.input'] = body
         body.seek(0)
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index a3afd28..68eecad 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -49,7 +49,7 @@ class BaseRequest:
     def _on_env_changed(request, key, v):
         todelete = ()
         if key == 'wsgi.input':
-            todelete = ('forms', 'files', 'params', 'post', 'json', 'body')
+            todelete = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error')
         elif key == 'QUERY_STRING':
             todelete = ('query', 'params')
         elif key.startswith('HTTP_'):
-- 
2.43.0


From 0f4df59c6fb890e12ad377240582d48afbcdfa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 45/53] fix: read(0) of an upload returns nothing

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index d302f35..d4f78c7 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -357,7 +357,7 @@ class BytesIOProxy:
         max_sz = self._end - self._pos
         if max_sz <= 0:
             return b''
-        if sz is not None and sz > 0:
+        if sz is not None and sz >= 0:
             sz = min(sz, max_sz)
         else:
             sz = max_sz
-- 
2.43.0


From 5e73f98dbfc0a25110e3992cb4dee1e84a1fca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 46/53] fix: an empty cookie is read as an empty string

---
 ombott/request_pkg/props_mixin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index bbbff5a..849df53 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -61,10 +61,10 @@ class PropsMixin:
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
         value = self.cookies.get(key)
-        if secret and value:
-            dec = cookie_decode(value, secret)  # (key, value) tuple or None
+        if secret:
+            dec = cookie_decode(value, secret) if value else None  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value or default
+        return default if value is None else value
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
-- 
2.43.0


From 3dbe487893aba93868d6f21b89ed710086639fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 47/53] fix: cookies of any characters are read back as they
 were set

---
 ombott/request_pkg/helpers.py     |  2 +-
 ombott/request_pkg/props_mixin.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/helpers.py b/ombott/request_pkg/helpers.py
index acadd65..8577463 100644
--- a/ombott/request_pkg/helpers.py
+++ b/ombott/request_pkg/helpers.py
@@ -155,7 +155,7 @@ class CookieDict(dict):
 
     def _fix(self, s, encoding: str):
         if isinstance(s, str):
-            return s.encode('latin1').decode(encoding)
+            return s.encode(self.input_encoding if self._decoded else 'latin1').decode(encoding)
         else:
             return s
 
diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 849df53..8bf518f 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -52,8 +52,15 @@ class PropsMixin:
     def cookies(self):
         """ Cookies parsed into a :class:`CookieDict`. Signed cookies are NOT
             decoded. Use :meth:`get_cookie` if you expect signed cookies. """
-        cookies = SimpleCookie(self._env_get('HTTP_COOKIE', '')).values()
-        return self._cookie_factory((c.key, c.value) for c in cookies)
+        header, decoded = self._env_get('HTTP_COOKIE', ''), True
+        try:
+            # before the parser turns the escape `\\351` into a character
+            header = header.encode('latin1').decode(self._cookie_factory.input_encoding)
+        except UnicodeError:
+            decoded = False
+        cookies = self._cookie_factory((c.key, c.value) for c in SimpleCookie(header).values())
+        cookies._decoded = decoded
+        return cookies
 
     def get_cookie(self, key, default=None, secret=None):
         """ Return the content of a cookie. To read a `Signed Cookie`, the
-- 
2.43.0


From 3b914fe853c4a389812ee3184b55ae8c853d309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 48/53] fix: cookies whose names start with a dollar sign can
 be read

---
 ombott/request_pkg/props_mixin.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 8bf518f..52ad454 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -1,4 +1,5 @@
 import base64
+import re
 from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
@@ -15,6 +16,10 @@ from .helpers import (
 )
 
 
+# `key="quoted text"` or `key=text`, anything else is skipped
+cookie_patt = re.compile(r'([^;=]*)(?:=\s*("(?:[^\\"]|\\.)*")\s*(?:;|\Z)|=([^;]*)(?:;|\Z)|;|\Z)')
+
+
 class PropsMixin:
 
     @cache_in('environ[ ombott.app ]', read_only=True)
@@ -58,7 +63,11 @@ class PropsMixin:
             header = header.encode('latin1').decode(self._cookie_factory.input_encoding)
         except UnicodeError:
             decoded = False
-        cookies = self._cookie_factory((c.key, c.value) for c in SimpleCookie(header).values())
+        unquote = SimpleCookie().value_decode
+        cookies = self._cookie_factory(
+            (m[1].strip(), unquote(m[2] or m[3].strip())[0])
+            for m in cookie_patt.finditer(header) if m[2] or m[3] is not None
+        )
         cookies._decoded = decoded
         return cookies
 
-- 
2.43.0


From 4c6a682f2879c2f89e78b9dff160795d06d25eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 49/53] fix: static files under the root '/' may have brackets
 in their names

---
 ombott/static_stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index a797da1..28ffce6 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -84,7 +84,8 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
         return HTTPError(403, "You do not have permission to access this file.")
 
     if mimetype == 'auto':
-        mimetype, encoding = mimetypes.guess_type(filename)
+        # only the name: a path starting with '//' would be parsed as a network location
+        mimetype, encoding = mimetypes.guess_type('/' + os_path.basename(filename))
         if encoding:
             headers['Content-Encoding'] = encoding
 
-- 
2.43.0


From 668bfc15d228e825b80181826ba418d22783c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 50/53] fix: HTTP dates do not depend on the history of the
 local time zone

---
 ombott/common_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 1c4c400..5dd7f06 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -6,7 +6,7 @@ import pickle
 import hmac
 import hashlib
 import email.utils
-import time
+import calendar
 from . import errors
 
 
@@ -14,7 +14,7 @@ def parse_date(ims):
     """ Parse rfc1123, rfc850 and asctime timestamps and return UTC epoch. """
     try:
         ts = email.utils.parsedate_tz(ims)
-        return time.mktime(ts[:8] + (0,)) - (ts[9] or 0) - time.timezone
+        return calendar.timegm(ts[:6] + (0, 0, 0)) - (ts[9] or 0)
     except (TypeError, ValueError, IndexError, OverflowError):
         return None
 
-- 
2.43.0


From 55248f04a2ebfe423839a5c9d4a4a2a034fc4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 51/53] fix: every request and response object has a state of
 its own

---
 ombott/common_helpers.py |  9 ++++-----
 ombott/ombott.py         | 24 ++++++++++++++++++++++--
 ombott/static_stream.py  |  2 +-
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 5dd7f06..5686431 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -71,12 +71,11 @@ def html_escape(string):
 
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
+    ''' Every instance has its own thread-local store. '''
     def wrapper(cls):
-        local_store = None
         cls_init = cls.__init__
 
         def init_wrapper(self, *a, **kw):
-            nonlocal local_store
             local_store = getattr(self, store_name, None)
             if local_store is None:
                 local_store = threading.local()
@@ -86,13 +85,13 @@ def ts_props(*props, store_name=None):
 
         def make_prop(k):
             def fget(s):
-                return getattr(local_store, k)
+                return getattr(getattr(s, store_name), k)
 
             def fset(s, v):
-                return setattr(local_store, k, v)
+                return setattr(getattr(s, store_name), k, v)
 
             def fdel(s):
-                return delattr(local_store, k)
+                return delattr(getattr(s, store_name), k)
             doc = 'Local property: %s' % k
             return property(fget, fset, fdel, doc)
 
diff --git a/ombott/ombott.py b/ombott/ombott.py
index fdbf536..0aaa15b 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -1,6 +1,7 @@
 import sys
 import json
 import functools
+import threading
 from traceback import format_exc
 import itertools
 from urllib.parse import urljoin
@@ -56,6 +57,15 @@ class _closeiter:
         [cb() for cb in self.close_callbacks]
 
 
+class _Serving(threading.local):
+    ''' The applications that are serving on this thread, innermost last. '''
+    def __init__(self):
+        self.apps = []
+
+
+_serving = _Serving()
+
+
 def run(app=None, server='wsgiref', host='127.0.0.1', port=8080,
         quiet=False, **kwargs):
     _stderr = sys.stderr.write
@@ -404,6 +414,7 @@ class Ombott:
                 environ[config.app_name_header] = '/' + app_name
                 environ["PATH_INFO"] = '/' + app_name + environ.get("PATH_INFO", '')
 
+        _serving.apps.append(self)
         try:
             out = None
             out = self._cast(self._handle(environ))
@@ -437,6 +448,8 @@ class Ombott:
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             return [] if self._is_head(environ) else [tob(err)]
+        finally:
+            _serving.apps.pop()
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
@@ -457,8 +470,8 @@ def redirect(location, code=None):
         the HTTP protocol version.
 
     """
-    response = Globals.response
-    request = Globals.request
+    response = Globals.current('response')
+    request = Globals.current('request')
     url = location
     if not code:
         code = 303 if request.get('SERVER_PROTOCOL') == "HTTP/1.1" else 302
@@ -470,6 +483,13 @@ def redirect(location, code=None):
 
 
 class Globals:
+    #: The module level functions (`redirect`, `static_file`) serve the application
+    #: that is serving on this thread, or else the objects below.
+    @classmethod
+    def current(cls, name):
+        apps = _serving.apps
+        return getattr(apps[-1] if apps else cls, name)
+
     app = Ombott()
     route = app.route
     on_route = app.on_route
diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 28ffce6..7f525b1 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -69,7 +69,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
         :param charset: The charset to use for files with a ``text/*``
             mime-type. (default: UTF-8)
     """
-    request = Globals.request
+    request = Globals.current('request')
     os_path = os.path
     root = os_path.abspath(root) + os.sep
     filename = os_path.abspath(os_path.join(root, filename.strip('/\\')))
-- 
2.43.0


From 2765e3b99b089a44ec828a90d6d55eb8e7ac0fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 52/53] fix: a response object that is returned again does not
 keep what was added to it

---
 ombott/response.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index b769445..0fcaf20 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -30,6 +30,13 @@ def http_date(value):
     return email.utils.formatdate(value, usegmt=True)
 
 
+def _copy_cookies(cookies):
+    copy = SimpleCookie()
+    for name, morsel in cookies.items():
+        copy[name] = morsel.copy()
+    return copy
+
+
 _response_slots = (
     '_status_line', '_status_code', 'headers', '_headers',
     '_cookies', 'body', '_ts_props'
@@ -281,9 +288,12 @@ class HTTPResponse(BaseResponse, OmbottException):
         response._status_code = self._status_code
         response._status_line = self._status_line
         response._headers.clear()
-        response._headers.update(self._headers)
+        # the same object may be returned again: whatever is done to the response must not stick to it
+        response._headers.update(
+            (k, (v[:] if isinstance(v, list) else v)) for k, v in self._headers.items()
+        )
         if self._cookies:
-            response._cookies = self._cookies
+            response._cookies = _copy_cookies(self._cookies)
         response.body = self.body
 
 
-- 
2.43.0


From 86db0b695c6cf39390d8ef2afd708b605e76d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 53/53] fix: shared error objects do not keep the frames of all
 requests that raised them

---
 ombott/ombott.py              |  5 +++--
 ombott/request_pkg/request.py |  4 +++-
 ombott/response.py            | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 0aaa15b..7c516de 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -303,7 +303,8 @@ class Ombott:
             finally:
                 self._emit_after_request()
         except HTTPResponse as resp:
-            return resp
+            # may be raised again by later requests: keep no frames of this one
+            return resp.with_traceback(None)
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as err500:
@@ -370,7 +371,7 @@ class Ombott:
             except StopIteration:
                 out = ''; continue                               # -----------------^
             except HTTPResponse as rs:
-                first = rs
+                first = rs.with_traceback(None)
             except (KeyboardInterrupt, SystemExit, MemoryError):
                 raise
             except Exception as err500:
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index 68eecad..8c790a5 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -1,6 +1,7 @@
 
 from ..common_helpers import ts_props, SimpleConfig
 from ..mixable import Mixable
+from ..response import HTTPResponse
 
 from .props_mixin import PropsMixin
 from .body_mixin import BodyMixin
@@ -41,7 +42,8 @@ class BaseRequest:
         for err_cls in (err.__class__, except_class):
             out_err = errors_map.get(err_cls)
             if out_err:
-                err = out_err
+                # the configured error is shared by all requests
+                err = out_err.fresh() if isinstance(out_err, HTTPResponse) else out_err
                 break
         raise err
 
diff --git a/ombott/response.py b/ombott/response.py
index 0fcaf20..a1c6b70 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -297,6 +297,25 @@ class HTTPResponse(BaseResponse, OmbottException):
         response.body = self.body
 
 
+    def fresh(self):
+        ''' A copy to be raised: a raised exception collects tracebacks, which
+            keep the frames of the request alive. '''
+        new = self.__class__.__new__(self.__class__)
+        new.args = self.args
+        for cls in self.__class__.__mro__:
+            slots = cls.__dict__.get('__slots__', ())
+            for name in [slots] if isinstance(slots, str) else slots:
+                if name not in ('headers', '_headers', '_cookies', '__dict__', '__weakref__') and hasattr(self, name):
+                    setattr(new, name, getattr(self, name))
+        new.__dict__.update(self.__dict__)
+        new._headers = {k: (v[:] if isinstance(v, list) else v) for k, v in self._headers.items()}
+        new.headers.dict = new._headers
+        new._cookies = None
+        if self._cookies:
+            new._cookies = _copy_cookies(self._cookies)
+        return new
+
+
 class HTTPError(HTTPResponse):
     __slots__ = ('exception', 'traceback')
     default_status = 500
-- 
2.43.0

