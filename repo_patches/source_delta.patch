From c36087ade270afd29f59d27cc7d076e21ea1cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:49 +0000
Subject: [PATCH 01/67] fix: don't hide routes from other threads while sorting
 them

---
 verktyg/routing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2fe0b86..02ead61 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1239,9 +1239,15 @@ class URLMap(object):
         in the correct order after things changed.
         """
         if self._remap:
-            self._routes.sort(key=lambda x: x.match_compare_key())
-            for routes in self._routes_by_endpoint.values():
-                routes.sort(key=lambda x: x.build_compare_key())
+            # Sort copies.  A list is empty while it is being sorted in place
+            # and other threads may already be matching or building.
+            self._routes = sorted(
+                self._routes, key=lambda x: x.match_compare_key()
+            )
+            for endpoint, routes in list(self._routes_by_endpoint.items()):
+                self._routes_by_endpoint[endpoint] = sorted(
+                    routes, key=lambda x: x.build_compare_key()
+                )
             self._remap = False
 
     def __repr__(self):
-- 
2.43.0


From e34488759fe329d950fc92d565caaa5ddd243b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:52 +0000
Subject: [PATCH 02/67] fix: accept MultiDict values when building urls

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 02ead61..54db108 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1537,7 +1537,7 @@ class MapAdapter(object):
         self.router.update()
         if values:
             if isinstance(values, MultiDict):
-                valueiter = values.iteritems(multi=True)
+                valueiter = values.items(multi=True)
             else:
                 valueiter = values.items()
             values = dict((k, v) for k, v in valueiter if v is not None)
-- 
2.43.0


From e653d380c34210642647e699ef7f80ec6fec2c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:54 +0000
Subject: [PATCH 03/67] fix: include every value of a multi value query
 argument in built urls

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 54db108..8b4efe9 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -707,7 +707,10 @@ class Route(RouteFactory):
 
             if query_vars:
                 url += u'?' + urlencode(
-                    sorted(query_vars.items(), key=self.router.sort_key),
+                    sorted(
+                        query_vars.items(multi=True),
+                        key=self.router.sort_key or (lambda item: item[0]),
+                    ),
                     encoding=self.router.charset,
                 )
 
-- 
2.43.0


From 5d6dfd8dfa5b6a16cd49161898332f610bb0952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:57 +0000
Subject: [PATCH 04/67] fix: don't drop empty and dot segments from relative
 built urls

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 8b4efe9..eb6a7d0 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1566,7 +1566,7 @@ class MapAdapter(object):
                 (host_matching and host == self.server_name) or
                 (not host_matching and domain_part == self.subdomain)
             ):
-                return str(urljoin(self.script_name, './' + path.lstrip('/')))
+                return posixpath.join(self.script_name, path.lstrip('/'))
 
         return urlunparse(ParseResult(
             scheme=self.url_scheme or '',
-- 
2.43.0


From c85b809a0d39dee52c0fc22a0ae1bab96c65c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 05/67] fix: don't let routes match paths with a trailing
 newline

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index eb6a7d0..5529325 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -627,7 +627,7 @@ class Route(RouteFactory):
 
         if self.build_only:
             return
-        regex = r'^%s%s$' % (
+        regex = r'^%s%s\Z' % (
             u''.join(regex_parts),
             '(?<!/)(?P<__suffix__>/?)'
             if (not self.is_leaf or not self.strict_slashes)
-- 
2.43.0


From 95aebff813a9edd73b14d019bb4476c633bee97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:01 +0000
Subject: [PATCH 06/67] fix: match the root url if no path info has been bound

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 5529325..d43997a 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1344,7 +1344,7 @@ class MapAdapter(object):
         """
         self.router.update()
         if path_info is None:
-            path_info = self.path_info
+            path_info = self.path_info or '/'
         if query_args is None:
             query_args = self.query_args
 
-- 
2.43.0


From c3792f233e78ea7942e57a9a28b0b1a95ea08afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:04 +0000
Subject: [PATCH 07/67] fix: use the charset of the map for query arguments in
 redirects

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index d43997a..8a21354 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1456,7 +1456,9 @@ class MapAdapter(object):
 
     def encode_query_args(self, query_args):
         if not isinstance(query_args, str):
-            query_args = urlencode(query_args, self.router.charset)
+            query_args = urlencode(
+                query_args, doseq=True, encoding=self.router.charset
+            )
         return query_args
 
     def make_redirect_url(self, path_info, query_args=None, domain_part=None):
-- 
2.43.0


From ebebb210d1cc4d16284e352dcc1e2537a55bd171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 08/67] fix: keep redirects, aliases and hosts of routes in
 route templates

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 8a21354..5c8efa7 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -404,7 +404,10 @@ class RouteTemplateFactory(RouteFactory):
                     subdomain,
                     route.build_only,
                     new_endpoint,
-                    route.strict_slashes
+                    route.strict_slashes,
+                    route.redirect_to,
+                    route.alias,
+                    route.host,
                 )
 
 
-- 
2.43.0


From aa94094921373b6ab817150d13f3a0604d0504bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:09 +0000
Subject: [PATCH 09/67] fix: don't redirect to add a slash if a converter
 rejects the value

---
 verktyg/routing.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 5c8efa7..7e03059 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -657,14 +657,13 @@ class Route(RouteFactory):
                 # slash and strict slashes enabled. raise an exception that
                 # tells the router to redirect to the same url but with a
                 # trailing slash
-                if (
+                missing_slash = (
                     self.strict_slashes and not self.is_leaf and
                     not groups.pop('__suffix__')
-                ):
-                    raise RequestSlash()
+                )
                 # if we are not in strict slashes mode we have to remove
                 # a __suffix__
-                elif not self.strict_slashes:
+                if not self.strict_slashes:
                     del groups['__suffix__']
 
                 result = {}
@@ -674,6 +673,10 @@ class Route(RouteFactory):
                     except ValidationError:
                         return
                     result[str(name)] = value
+
+                if missing_slash:
+                    raise RequestSlash()
+
                 if self.defaults:
                     result.update(self.defaults)
 
-- 
2.43.0


From d6331c1e59541af7a12b94abb2711dceb97418de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:46 +0000
Subject: [PATCH 10/67] fix: let the path converter match values with line
 breaks

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 7e03059..ff88d4b 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -890,7 +890,7 @@ class PathConverter(BaseConverter):
     :param router:
         The :class:`URLMap`.
     """
-    regex = '[^/].*?'
+    regex = '[^/](?s:.)*?'
     weight = 200
 
 
-- 
2.43.0


From d17541a39677596e72b6bb36648433163053b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 11/67] fix: select representations by language using the
 accept language header

---
 verktyg/accept/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2d93257..3059518 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -172,7 +172,7 @@ class Representation(object):
         )
 
         language_acceptability = (
-            self._content_type.acceptability(accept)
+            self._language.acceptability(accept_language)
             if self._language is not None else
             None
         )
-- 
2.43.0


From a5285e478a0b54df5822fe84e37d53ef260acefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:36 +0000
Subject: [PATCH 12/67] fix: select representations by charset using the accept
 charset header

---
 verktyg/accept/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 3059518..e575b5f 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -178,7 +178,7 @@ class Representation(object):
         )
 
         charset_acceptability = (
-            self._charset.acceptability
+            self._charset.acceptability(accept_charset)
             if self._charset is not None else
             None
         )
-- 
2.43.0


From 1dbe5425376e6f89bcb2d916d69ab607017f0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 13/67] fix: let the most specific range decide the quality of
 a match

---
 verktyg/accept/_base.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index eaca9ff..a659c1c 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -167,13 +167,10 @@ class Acceptability(object):
         if other is None:
             return True
 
-        if self._match_quality > other._match_quality:
-            return True
-
-        if self.quality > other.quality:
-            return True
+        if self._match_quality != other._match_quality:
+            return self._match_quality > other._match_quality
 
-        return False
+        return self.quality > other.quality
 
 
 # TODO better name
-- 
2.43.0


From ec4507f1666f05ea6053b1ee6253a967b59a6be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 14/67] fix: compare the acceptability of representations
 lexicographically

---
 verktyg/accept/__init__.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index e575b5f..66009d2 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -60,23 +60,24 @@ class Acceptability(object):
                 return False
             return True
 
-        if _gt(
+        if (
+            self._content_type_acceptability !=
+            other._content_type_acceptability
+        ):
+            return _gt(
                 self._content_type_acceptability,
-                other._content_type_acceptability):
-            return True
-        if _gt(
+                other._content_type_acceptability)
+        if self._language_acceptability != other._language_acceptability:
+            return _gt(
                 self._language_acceptability,
-                other._language_acceptability):
-            return True
-        if _gt(
+                other._language_acceptability)
+        if self._charset_acceptability != other._charset_acceptability:
+            return _gt(
                 self._charset_acceptability,
-                other._charset_acceptability):
-            return True
-        if _gt(
-                self._qs,
-                other._qs):
-            return True
-        return False
+                other._charset_acceptability)
+        return _gt(
+            self._qs,
+            other._qs)
 
 
 def select_representation(
-- 
2.43.0


From 43cd4669b2a815a8197c270d052d48003ebbe9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 15/67] fix: don't accept values for which the client gave a
 quality of zero

---
 verktyg/accept/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index a659c1c..f6b5d2e 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -209,7 +209,7 @@ class Value(object):
                 if best_match is None or match > best_match:
                     best_match = match
 
-        if best_match is None:
+        if best_match is None or not best_match._q:
             raise NotAcceptable()
 
         return best_match
-- 
2.43.0


From d70f2157c41d9eae9d65001174c57b81beea8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 16/67] fix: yield handlers instead of classes from nested
 exception dispatchers

---
 verktyg/exception_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exception_dispatch.py b/verktyg/exception_dispatch.py
index 6634a21..bcf8f55 100644
--- a/verktyg/exception_dispatch.py
+++ b/verktyg/exception_dispatch.py
@@ -77,7 +77,8 @@ class ExceptionDispatcher(ExceptionHandlerFactory):
                 self._handlers[handler.exception_class].append(handler)
 
     def get_exception_handlers(self):
-        return iter(self._handlers)
+        for handlers in list(self._handlers.values()):
+            yield from handlers
 
     def lookup(
         self, exception_class,
-- 
2.43.0


From f6c836d69ef9c13a67304b943acf5dd0712ca9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:48 +0000
Subject: [PATCH 17/67] fix: don't require applications to have a debug
 attribute to render json

---
 verktyg/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/views.py b/verktyg/views.py
index 24e52cd..b541e27 100644
--- a/verktyg/views.py
+++ b/verktyg/views.py
@@ -89,7 +89,7 @@ class JsonView(View):
             # no content
             return Response(status=204)
 
-        if env.debug:
+        if getattr(env, 'debug', False):
             json_response = json.dumps(res, indent=4)
         else:
             json_response = json.dumps(res, separators=(',', ':'))
-- 
2.43.0


From 1c16953341d59792d8c318debb28a3e5a86e593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 18/67] fix: close the response only once if the client
 disconnects

---
 verktyg/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/application.py b/verktyg/application.py
index 385ff31..7f5380f 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -89,7 +89,10 @@ class BaseApplication(object):
     def _wsgi_inner(self, wsgi_env, start_response):
         with self.request_class(wsgi_env) as request:
             with self._get_response(request) as response:
-                yield from response(wsgi_env, start_response)
+                # don't delegate to the iterator using `yield from` as it would
+                # close the response and then the with block would do it again
+                for chunk in response(wsgi_env, start_response):
+                    yield chunk
 
     def __call__(self, wsgi_env, start_response):
         wsgi_env['verktyg.application'] = self
-- 
2.43.0


From 97490ac90a20e33a3ab6af587c8bed9b65e7dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 19/67] fix: count encoded bytes instead of characters for the
 content length

---
 verktyg/responses.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index e6e434b..4fb7094 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -344,7 +344,7 @@ class BaseResponse(object):
             self._ensure_sequence()
         except RuntimeError:
             return None
-        return sum(len(x) for x in self.response)
+        return sum(map(len, self.iter_encoded()))
 
     def _ensure_sequence(self, mutable=False):
         """This method can be called by methods that need a sequence.  If
@@ -560,14 +560,13 @@ class BaseResponse(object):
 
         # if we can determine the content length automatically, we
         # should try to do that.  But only if this does not involve
-        # flattening the iterator or encoding of unicode strings in
-        # the response.  We however should not do that if we have a 304
-        # response.
+        # flattening the iterator.  We however should not do that if we
+        # have a 304 response.
         if (
             self.automatically_set_content_length and
             self.is_sequence and content_length is None and status != 304
         ):
-            content_length = sum(len(x) for x in self.response)
+            content_length = sum(map(len, self.iter_encoded()))
             headers['Content-Length'] = str(content_length)
 
         return headers
-- 
2.43.0


From e4e8fb10e9f63b3239f11b4d5c686cc1bf84787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 20/67] fix: close the response iterable after buffering it in
 freeze

---
 verktyg/responses.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index 4fb7094..ddf9b5f 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -490,7 +490,10 @@ class BaseResponse(object):
         """
         # we explicitly set the length to a list of the *encoded* response
         # iterator.  Even if the implicit sequence conversion is disabled.
+        close = getattr(self.response, 'close', None)
         self.response = list(self.iter_encoded())
+        if close is not None:
+            close()
         self.headers['Content-Length'] = str(sum(map(len, self.response)))
 
     def get_wsgi_headers(self, environ):
-- 
2.43.0


From dc4922878cc391fdef0afbbfb0417e8ae36d2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:28 +0000
Subject: [PATCH 21/67] fix: return whether or not a request is secure

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 6965d3b..e54c125 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -435,7 +435,7 @@ class BaseRequest(object):
     def is_secure(self):
         """`True` if the request is made over an encrypted connection
         """
-        self.environ['wsgi.url_scheme'] == 'https',
+        return self.environ['wsgi.url_scheme'] == 'https'
 
     @property
     def is_multithread(self):
-- 
2.43.0


From ddc93405054764b35008fa0cad0ebec439fd15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 22/67] fix: don't fail if the max forwards header is missing

---
 verktyg/requests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index e54c125..f23954e 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -615,8 +615,8 @@ class CommonRequestDescriptorsMixin(object):
         that can forward the request to the next inbound server.
         """
         try:
-            return int(self.environ.get('HTTP_MAX_FORWARDS'))
-        except ValueError:
+            return int(self.environ['HTTP_MAX_FORWARDS'])
+        except (KeyError, ValueError):
             return None
 
     def _parse_content_type(self):
-- 
2.43.0


From 3ce7fc8424fbb1a1e7203e89f543ab82cb4e996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:19 +0000
Subject: [PATCH 23/67] fix: close the wrapped iterable instead of its iterator

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4b15444..3f2f1d7 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -583,7 +583,7 @@ class ClosingIterator(object):
             callbacks = [callbacks]
         else:
             callbacks = list(callbacks)
-        iterable_close = getattr(iterator, 'close', None)
+        iterable_close = getattr(iterable, 'close', None)
         if iterable_close:
             callbacks.insert(0, iterable_close)
         self._callbacks = callbacks
-- 
2.43.0


From cae6f856a0aa2e99852353e751277c88fb033212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:21 +0000
Subject: [PATCH 24/67] fix: don't fail when matching hosts against trusted
 subdomains

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 3f2f1d7..331d952 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -134,7 +134,7 @@ def host_is_trusted(hostname, trusted_list):
         ref = _normalize(ref)
         if ref == hostname:
             return True
-        if suffix_match and hostname.endswith('.' + ref):
+        if suffix_match and hostname.endswith(b'.' + ref):
             return True
     return False
 
-- 
2.43.0


From be756eaf195f75732c49299118ea96d99b8bb45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:23 +0000
Subject: [PATCH 25/67] fix: accept a list of rules for files which should not
 be shared

---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 331d952..bd3e9d2 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -399,7 +399,11 @@ class SharedDataMiddleware(object):
             self.exports[key] = loader
         if disallow is not None:
             from fnmatch import fnmatch
-            self.is_allowed = lambda x: not fnmatch(x, disallow)
+            if isinstance(disallow, str):
+                disallow = [disallow]
+            self.is_allowed = lambda x: not any(
+                fnmatch(x, rule) for rule in disallow
+            )
         self.fallback_mimetype = fallback_mimetype
 
     def is_allowed(self, filename):
-- 
2.43.0


From 24b09ba6e163a522811435f0a3e9da98278c1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:25 +0000
Subject: [PATCH 26/67] fix: iterate over the lines of streams of bytes

---
 verktyg/wsgi.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index bd3e9d2..abd0c84 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -704,6 +704,16 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
     """
     _iter = _make_chunk_iter(stream, limit, buffer_size)
 
+    first_item = next(_iter, '')
+    if not first_item:
+        return
+
+    _iter = chain((first_item,), _iter)
+    if isinstance(first_item, str):
+        empty, cr, lf = '', '\r', '\n'
+    else:
+        empty, cr, lf = b'', b'\r', b'\n'
+
     def _iter_basic_lines():
         buffer = []
         while 1:
@@ -713,20 +723,20 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
             new_buf = []
             for item in chain(buffer, new_data.splitlines(True)):
                 new_buf.append(item)
-                if item and item[-1:] in '\r\n':
-                    yield ''.join(new_buf)
+                if item and item[-1:] in (cr, lf):
+                    yield empty.join(new_buf)
                     new_buf = []
             buffer = new_buf
         if buffer:
-            yield ''.join(buffer)
+            yield empty.join(buffer)
 
     # This hackery is necessary to merge 'foo\r' and '\n' into one item
     # of 'foo\r\n' if we were unlucky and we hit a chunk boundary.
-    previous = ''
+    previous = empty
     for item in _iter_basic_lines():
-        if item == '\n' and previous[-1:] == '\r':
+        if item == lf and previous[-1:] == cr:
             previous += item
-            item = ''
+            item = empty
         if previous:
             yield previous
         previous = item
-- 
2.43.0


From 96eea6cea7b11c90cf729556fc7dec5d8ae71ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:27 +0000
Subject: [PATCH 27/67] fix: find separators which cross the boundary between
 two reads

---
 verktyg/wsgi.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index abd0c84..84bc4b3 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -9,7 +9,6 @@
     :license:
         BSD, see LICENSE for more details.
 """
-import re
 import os
 from io import BytesIO
 import sys
@@ -768,28 +767,29 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
 
     _iter = chain((first_item,), _iter)
     if isinstance(first_item, str):
-        _split = re.compile(r'(%s)' % re.escape(separator)).split
-        _join = ''.join
+        empty = ''
     else:
-        _split = re.compile(b'(' + re.escape(separator) + b')').split
-        _join = b''.join
+        empty = b''
 
+    # The end of the data read so far might be the start of a separator, the
+    # rest of which hasn't been read yet.
+    overlap = len(separator) - 1
     buffer = []
+    tail = empty
     while 1:
         new_data = next(_iter, '')
         if not new_data:
             break
-        chunks = _split(new_data)
-        new_buf = []
-        for item in chain(buffer, chunks):
-            if item == separator:
-                yield _join(new_buf)
-                new_buf = []
-            else:
-                new_buf.append(item)
-        buffer = new_buf
-    if buffer:
-        yield _join(buffer)
+        chunks = (tail + new_data).split(separator)
+        for item in chunks[:-1]:
+            buffer.append(item)
+            yield empty.join(buffer)
+            buffer = []
+        split = max(len(chunks[-1]) - overlap, 0)
+        buffer.append(chunks[-1][:split])
+        tail = chunks[-1][split:]
+    buffer.append(tail)
+    yield empty.join(buffer)
 
 
 class LimitedStream(object):
-- 
2.43.0


From d3e5c3e85f7010757b3687197caa4c2f6c7918d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 28/67] fix: don't read past the limit of a stream if the size
 is negative

---
 verktyg/wsgi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 84bc4b3..74fc854 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -883,7 +883,7 @@ class LimitedStream(object):
         """
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None or size == -1:  # -1 is for consistence with file
+        if size is None or size < 0:  # < 0 is for consistence with file
             size = self.limit
         to_read = min(self.limit - self._pos, size)
         try:
@@ -899,7 +899,7 @@ class LimitedStream(object):
         """Reads one line from the stream."""
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None:
+        if size is None or size < 0:
             size = self.limit - self._pos
         else:
             size = min(size, self.limit - self._pos)
@@ -920,6 +920,8 @@ class LimitedStream(object):
         """
         last_pos = self._pos
         result = []
+        if size is not None and size < 0:
+            size = None
         if size is not None:
             end = min(self.limit, last_pos + size)
         else:
-- 
2.43.0


From 1965c2fee6e0fc6840c1afe6b7ed87c9b31018c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:30 +0000
Subject: [PATCH 29/67] fix: reject newlines in header values passed to the
 constructor

---
 verktyg/http/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c83f722..37fc141 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -152,6 +152,8 @@ class Headers(object):
         self._list = []
         if defaults is not None:
             if isinstance(defaults, (list, Headers)):
+                for _, value in defaults:
+                    self._validate_value(unicodify_header_value(value))
                 self._list.extend(defaults)
             else:
                 self.extend(defaults)
-- 
2.43.0


From 35b62ce3fcba0290025ef65a2b812bde22dbc537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 30/67] fix: ignore case when removing values from header sets

---
 verktyg/http/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 37fc141..3a8046c 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -991,8 +991,8 @@ class HeaderSet(object):
         if key not in self._set:
             raise KeyError(header)
         self._set.remove(key)
-        for idx, key in enumerate(self._headers):
-            if key.lower() == header:
+        for idx, item in enumerate(self._headers):
+            if item.lower() == key:
                 del self._headers[idx]
                 break
         if self.on_update is not None:
-- 
2.43.0


From 3c1e004e9979c1b162ba25dd48ad8e0fd06111ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:47 +0000
Subject: [PATCH 31/67] fix: don't keep duplicate values when creating a header
 set

---
 verktyg/http/basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 3a8046c..0dd7705 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -972,8 +972,10 @@ class HeaderSet(object):
     """
 
     def __init__(self, headers=None, on_update=None):
-        self._headers = list(headers or ())
-        self._set = set([x.lower() for x in self._headers])
+        self._headers = []
+        self._set = set()
+        self.on_update = None
+        self.update(headers or ())
         self.on_update = on_update
 
     def add(self, header):
-- 
2.43.0


From 6fb85412a344080a1ea0ec7cc73fb8c745d68280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:49 +0000
Subject: [PATCH 32/67] fix: don't unquote values in list and dict headers
 twice

---
 verktyg/http/basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 0dd7705..2794301 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -614,7 +614,8 @@ def parse_list_header(value):
     result = []
     for item in _parse_list_header(value):
         if item[:1] == item[-1:] == '"':
-            item = unquote_header_value(item[1:-1])
+            # escape sequences have already been replaced
+            item = item[1:-1]
         result.append(item)
     return result
 
@@ -655,7 +656,8 @@ def parse_dict_header(value, cls=dict):
             continue
         name, value = item.split('=', 1)
         if value[:1] == value[-1:] == '"':
-            value = unquote_header_value(value[1:-1])
+            # escape sequences have already been replaced
+            value = value[1:-1]
         result[name] = value
     return result
 
-- 
2.43.0


From 647b75a5b35ef43f7799fc153d26907b7a0a6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 33/67] fix: quote empty header values

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 2794301..07949c5 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -78,7 +78,7 @@ def quote_header_value(value, extra_chars='', allow_token=True):
     value = str(value)
     if allow_token:
         token_chars = _token_chars | set(extra_chars)
-        if set(value).issubset(token_chars):
+        if value and set(value).issubset(token_chars):
             return value
     return '"%s"' % value.replace('\\', '\\\\').replace('"', '\\"')
 
-- 
2.43.0


From 2c270e377816a63d7cae9305281268ca9dcad5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:53 +0000
Subject: [PATCH 34/67] fix: don't fail to parse headers with no value before
 the options

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 07949c5..8ba5970 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -690,7 +690,7 @@ def parse_options_header(value):
         return '', {}
 
     parts = _tokenize(';' + value)
-    name = next(parts)[0]
+    name = next(parts, ('', None))[0]
     extra = dict(parts)
     return name, extra
 
-- 
2.43.0


From 9dd1cfb7f0c692af73aef5e4a029c011a8182008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:55 +0000
Subject: [PATCH 35/67] fix: stop iterating at the end of an uploaded file

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 8ba5970..8383907 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -950,7 +950,7 @@ class FileStorage(object):
         return getattr(self.stream, name)
 
     def __iter__(self):
-        return iter(self.readline, '')
+        return iter(self.readline, b'')
 
     def __repr__(self):
         return '<%s: %r (%r)>' % (
-- 
2.43.0


From 03b4737cf73d5f89667803a9fd0f7b499ef83d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:15 +0000
Subject: [PATCH 36/67] fix: return None instead of raising for malformed range
 headers

---
 verktyg/http/cache_control.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b94f52c..dfe8529 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -134,21 +134,24 @@ def parse_range_header(value, make_inclusive=True):
         if item.startswith('-'):
             if last_end < 0:
                 return None
-            begin = int(item)
+            try:
+                begin = int(item)
+            except ValueError:
+                return None
             end = None
             last_end = -1
         elif '-' in item:
             begin, end = item.split('-', 1)
-            begin = int(begin)
+            try:
+                begin = int(begin)
+                end = int(end) + 1 if end else None
+            except ValueError:
+                return None
             if begin < last_end or last_end < 0:
                 return None
-            if end:
-                end = int(end) + 1
-                if begin >= end:
-                    return None
-            else:
-                end = None
-            last_end = end
+            if end is not None and begin >= end:
+                return None
+            last_end = end if end is not None else -1
         ranges.append((begin, end))
 
     return Range(units, ranges)
-- 
2.43.0


From 4c298e257bb8065150b06f056db120e18134f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 37/67] fix: return everything for suffix ranges longer than
 the content

---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index dfe8529..884a789 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -84,7 +84,8 @@ class Range(object):
         if end is None:
             end = length
             if start < 0:
-                start += length
+                # use everything if there is less content than asked for
+                start = max(start + length, 0)
         if is_byte_range_valid(start, end, length):
             return start, min(end, length)
 
-- 
2.43.0


From 81328b9d06daa7d88945a0228862492e424bd539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 38/67] fix: don't raise for content range lengths which aren't
 decimal numbers

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 884a789..6c1e026 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -256,7 +256,7 @@ def parse_content_range_header(value, on_update=None):
     rng, length = rangedef.split('/', 1)
     if length == '*':
         length = None
-    elif length.isdigit():
+    elif length.isdecimal():
         length = int(length)
     else:
         return None
-- 
2.43.0


From aa37a677b1bc0985eb3617e7377088029b603a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:20 +0000
Subject: [PATCH 39/67] fix: don't raise when removing missing cache control
 directives

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 6c1e026..d9a5b7a 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -336,7 +336,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
                 self.pop(key, None)
         else:
             if value is None:
-                self.pop(key)
+                self.pop(key, None)
             elif value is True:
                 self[key] = None
             else:
-- 
2.43.0


From 510d294ea36825ce5e73578e10addfd0e8788161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:22 +0000
Subject: [PATCH 40/67] fix: parse empty etags as empty strings

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index d9a5b7a..e3fff86 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -569,7 +569,7 @@ def parse_etags(value):
         is_weak, quoted, raw = match.groups()
         if raw == '*':
             return ETags(star_tag=True)
-        elif quoted:
+        elif quoted is not None:
             raw = quoted
         if is_weak:
             weak.append(raw)
-- 
2.43.0


From 98f62903a71e89cc619680f4c313382c2e8a89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:25 +0000
Subject: [PATCH 41/67] fix: handle decoding errors in cookies as requested

---
 verktyg/http/cookies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 95bab83..be3dde9 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -188,8 +188,8 @@ def parse_cookie(header, charset='utf-8', errors='replace', cls=None):
 
     def _parse_pairs():
         for key, val in _cookie_parse_impl(header):
-            key = key.decode(charset)
-            val = val.decode(charset)
+            key = key.decode(charset, errors)
+            val = val.decode(charset, errors)
             yield key, val
 
     return cls(_parse_pairs())
-- 
2.43.0


From a548ccefd2dbf8e2c01c27a407fc5b1a7d06798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:26 +0000
Subject: [PATCH 42/67] fix: don't let cookies with no value swallow the next
 cookie

---
 verktyg/http/cookies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index be3dde9..aede082 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -39,7 +39,7 @@ for _i in chain(range(32), range(127, 256)):
 _octal_re = re.compile(b'\\\\[0-3][0-7][0-7]')
 _quote_re = re.compile(b'[\\\\].')
 _cookie_re = re.compile(b"""(?x)
-    (?P<key>[^=]+)
+    (?P<key>[^=;]+)
     \s*=\s*
     (?P<val>
         "(?:[^\\\\"]|\\\\.)*" |
-- 
2.43.0


From 3d0e13e12516ec1475d1872942d66962ba25dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 43/67] fix: don't unquote characters which change how an iri
 is parsed

---
 verktyg/urls.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 983173b..a004212 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -141,14 +141,14 @@ def uri_to_iri(uri, errors='replace'):
     if uri.username or uri.password:
         if uri.username:
             username = _safe_urlunquote(
-                uri.username, errors='strict', unsafe='/:%'
+                uri.username, errors='strict', unsafe='/:%?#@[]\t\r\n'
             )
         else:
             username = ''
 
         if uri.password:
             password = _safe_urlunquote(
-                uri.password, errors='strict', unsafe='/:%'
+                uri.password, errors='strict', unsafe='/:%?#@[]\t\r\n'
             )
             auth = '%s:%s' % (username, password)
         else:
@@ -157,13 +157,13 @@ def uri_to_iri(uri, errors='replace'):
         netloc = '%s@%s' % (auth, netloc)
 
     path = _safe_urlunquote(
-        uri.path, errors=errors, unsafe='%/;?'
+        uri.path, errors=errors, unsafe='%/;?#\t\r\n'
     )
     query = _safe_urlunquote(
-        uri.query, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.query, errors=errors, unsafe='%;/?:@&=+,$#\t\r\n'
     )
     fragment = _safe_urlunquote(
-        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#\t\r\n'
     )
     return urlunsplit(
         (uri.scheme, netloc, path, query, fragment)
-- 
2.43.0


From 8e79ddd1b544847ec97555e04a135e62a5c2bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 44/67] fix: forget the items of ordered multi dicts when they
 are cleared

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4c55381..9de99b8 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -770,6 +770,10 @@ class OrderedMultiDict(MultiDict):
         for key, value in iter_multi_items(mapping):
             OrderedMultiDict.add(self, key, value)
 
+    def clear(self):
+        dict.clear(self)
+        self._first_bucket = self._last_bucket = None
+
     def poplist(self, key):
         buckets = dict.pop(self, key, ())
         for bucket in buckets:
-- 
2.43.0


From 8d06bc2a733550a9dbda3027e9699b8bfeed00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 45/67] fix: keep the order of items in deep copies of ordered
 multi dicts

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 9de99b8..69d1c6c 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -683,6 +683,10 @@ class OrderedMultiDict(MultiDict):
     def __reduce_ex__(self, protocol):
         return type(self), (list(self.items(multi=True)),)
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(list(self.items(multi=True)), memo))
+
     def __getstate__(self):
         return list(self.items(multi=True))
 
-- 
2.43.0


From 18c7496e46ac8841efa2eec8037de3a1da6fad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:39 +0000
Subject: [PATCH 46/67] fix: make deep copies of combined multi dicts usable

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 69d1c6c..9a624ed 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -917,6 +917,10 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         """Return a shallow copy of this object."""
         return self.__class__(self.dicts[:])
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(self.dicts, memo))
+
     def to_dict(self, flat=True):
         """Return the contents as regular dict.  If `flat` is `True` the
         returned dict will only have the first item present, if `flat` is
-- 
2.43.0


From 0a06bbc4b6d5909c20d0f7489e1f7abff68016c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:41 +0000
Subject: [PATCH 47/67] fix: include values from all dicts when converting
 combined multi dicts

---
 verktyg/datastructures.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 9a624ed..a60e50c 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -933,10 +933,9 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         :return:
             A :class:`dict`
         """
-        rv = {}
-        for d in reversed(self.dicts):
-            rv.update(d.to_dict(flat))
-        return rv
+        if flat:
+            return dict(self.items())
+        return dict(self.lists())
 
     def __len__(self):
         return len(self._keys_impl())
-- 
2.43.0


From 9ac2baad3b6c639953b3854a9163c8fb8473ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 48/67] fix: don't expose the internal lists of multi dicts

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index a60e50c..8d2912e 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -512,7 +512,8 @@ class MultiDict(TypeConversionDict):
         True
         """
 
-        return dict.values(self)
+        for values in dict.values(self):
+            yield list(values)
 
     def copy(self):
         """Return a shallow copy of this object."""
-- 
2.43.0


From 51aaf0df4335da1b63052f86b5735c24c6b54f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:46 +0000
Subject: [PATCH 49/67] fix: prevent immutable types from being cleared or
 updated in place

---
 verktyg/datastructures.py | 6 ++++++
 verktyg/http/basic.py     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 8d2912e..d7238a1 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -80,6 +80,9 @@ class ImmutableListMixin(object):
         is_immutable(self)
     remove = append
 
+    def clear(self):
+        is_immutable(self)
+
     def extend(self, iterable):
         is_immutable(self)
 
@@ -152,6 +155,9 @@ class ImmutableDictMixin(object):
     def __delitem__(self, key):
         is_immutable(self)
 
+    def __ior__(self, other):
+        is_immutable(self)
+
     def clear(self):
         is_immutable(self)
 
diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 8383907..92a9283 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -517,6 +517,9 @@ class ImmutableHeadersMixin(object):
         is_immutable(self)
     remove = add_header = add
 
+    def clear(self):
+        is_immutable(self)
+
     def extend(self, iterable):
         is_immutable(self)
 
-- 
2.43.0


From 8c47b0219a813ebf185398c3d931184bfaa447a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:47 +0000
Subject: [PATCH 50/67] fix: notify the owner of a dict if it is updated in
 place

---
 verktyg/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index d7238a1..33404c2 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -226,6 +226,7 @@ class UpdateDictMixin(object):
 
     __setitem__ = calls_update('__setitem__')
     __delitem__ = calls_update('__delitem__')
+    __ior__ = calls_update('__ior__')
     clear = calls_update('clear')
     popitem = calls_update('popitem')
     update = calls_update('update')
-- 
2.43.0


From 259f916384bb38a86e91bd93edb85a24e48bb715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:15 +0000
Subject: [PATCH 51/67] fix: quote the path when redirecting to append a slash

---
 verktyg/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index ad20122..0180ada 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -15,6 +15,7 @@ import re
 import os
 
 from html import escape
+from urllib.parse import quote as urlquote
 
 
 _filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')
@@ -228,7 +229,8 @@ def append_slash_redirect(environ, code=301):
     :param code:
         The status code for the redirect.
     """
-    new_path = environ['PATH_INFO'].strip('/') + '/'
+    path = environ['PATH_INFO'].strip('/').encode('latin1')
+    new_path = urlquote(path) + '/'
     query_string = environ.get('QUERY_STRING')
     if query_string:
         new_path += '?' + query_string
-- 
2.43.0


From 3d7ac5c729bfb75e6de9dce90eb6b0a7b68e1ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 52/67] fix: comparing an immutable multi dict with an ordered
 one was asymmetric

---
 verktyg/datastructures.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 33404c2..82c333d 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -353,6 +353,15 @@ class MultiDict(TypeConversionDict):
         dict.clear(self)
         dict.update(self, value)
 
+    def __eq__(self, other):
+        if isinstance(other, OrderedMultiDict):
+            # Stores its values in buckets.  Knows how to compare itself.
+            return NotImplemented
+        return dict.__eq__(self, other)
+
+    def __ne__(self, other):
+        return not self == other
+
     def __getitem__(self, key):
         """Return the first data value for this key;
         raises KeyError if not found.
-- 
2.43.0


From 311a86d7438d758e60eb6133bbaa1a7be060187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:30 +0000
Subject: [PATCH 53/67] fix: reading the content range of a response does not
 write its headers

---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index e3fff86..d76e1a8 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -165,8 +165,9 @@ class ContentRange(object):
     def __init__(self, units, start, stop, length=None, on_update=None):
         if not is_byte_range_valid(start, stop, length):
             raise ValueError('Bad range provided')
-        self.on_update = on_update
+        self.on_update = None
         self.set(start, stop, length, units)
+        self.on_update = on_update
 
     def _callback_property(name):
         def fget(self):
-- 
2.43.0


From 6e01c0185d73cd0c6fe01fc3f9a5e2dcdaa5642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:22 +0000
Subject: [PATCH 54/67] fix: only answer GET and HEAD requests for shared files
 with not modified

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 74fc854..8a829e3 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -506,7 +506,10 @@ class SharedDataMiddleware(object):
                 ('Etag', '"%s"' % etag),
                 ('Cache-Control', 'max-age=%d, public' % timeout)
             ]
-            if not is_resource_modified(environ, etag, last_modified=mtime):
+            if (
+                environ['REQUEST_METHOD'] in ('GET', 'HEAD') and
+                not is_resource_modified(environ, etag, last_modified=mtime)
+            ):
                 f.close()
                 start_response('304 Not Modified', headers)
                 return []
-- 
2.43.0


From 7143a7364813dd70716a06fba7f077d40701efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:05 +0000
Subject: [PATCH 55/67] fix: pass requests for folders of shared package data
 to the application

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 8a829e3..8cd2f41 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -435,7 +435,10 @@ class SharedDataMiddleware(object):
             if path is None:
                 return None, None
             path = posixpath.join(package_path, path)
-            if not provider.has_resource(path):
+            if (
+                not provider.has_resource(path) or
+                provider.resource_isdir(path)
+            ):
                 return None, None
             basename = posixpath.basename(path)
             if filesystem_bound:
-- 
2.43.0


From 73281c104f4424f1b137d76d1e7c16d614aba1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:07 +0000
Subject: [PATCH 56/67] fix: send the real length of shared data from zipped
 packages

---
 verktyg/wsgi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 8cd2f41..26dc7ec 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -444,11 +444,11 @@ class SharedDataMiddleware(object):
             if filesystem_bound:
                 return basename, self._opener(
                     provider.get_resource_filename(manager, path))
-            return basename, lambda: (
-                provider.get_resource_stream(manager, path),
-                loadtime,
-                0
-            )
+
+            def opener():
+                data = provider.get_resource_string(manager, path)
+                return BytesIO(data), loadtime, len(data)
+            return basename, opener
         return loader
 
     def get_directory_loader(self, directory):
-- 
2.43.0


From 1770b166917692e954ecb86710563098394ee575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:04 +0000
Subject: [PATCH 57/67] fix: keep spaces in fragments apart from plus signs in
 url_fix

A plus sign only stands for a space in a query.  url_fix turned 'a b' in a
fragment into 'a+b', which names another fragment.
---
 verktyg/urls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index a004212..c74c678 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -281,7 +281,7 @@ def url_fix(s, charset='utf-8'):
     qs = urlquote_plus(
         url.query, encoding=charset, safe=':&%=+$!*\'(),'
     )
-    anchor = urlquote_plus(
+    anchor = urlquote(
         url.fragment, encoding=charset, safe=':&%=+$!*\'(),'
     )
 
-- 
2.43.0


From b02960038fac121881dcbfba2d4d4799499e6b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 58/67] fix: sort the routes again after a batch was refused
 half way

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index ff88d4b..c78793e 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1115,7 +1115,7 @@ class URLMap(object):
                 self._routes_by_endpoint.setdefault(
                     route.endpoint, []
                 ).append(route)
-        self._remap = True
+                self._remap = True
 
     def bind(
         self, server_name, script_name=None, subdomain=None,
-- 
2.43.0


From 60a85313f788a771e9a0316b5c511e264ed36fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 59/67] fix: compare combined multi dicts by what they show

---
 verktyg/datastructures.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 82c333d..dd4d825 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -354,8 +354,8 @@ class MultiDict(TypeConversionDict):
         dict.update(self, value)
 
     def __eq__(self, other):
-        if isinstance(other, OrderedMultiDict):
-            # Stores its values in buckets.  Knows how to compare itself.
+        if isinstance(other, (OrderedMultiDict, CombinedMultiDict)):
+            # Store their values elsewhere.  Know how to compare themselves.
             return NotImplemented
         return dict.__eq__(self, other)
 
@@ -866,6 +866,15 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
             'cannot create {cls!r} instances by fromkeys'
         ).format(cls=cls.__name__))
 
+    def __eq__(self, other):
+        if isinstance(other, OrderedMultiDict):
+            return NotImplemented
+        if isinstance(other, MultiDict):
+            other = other.to_dict(flat=False)
+        return self.to_dict(flat=False) == other
+
+    __hash__ = ImmutableMultiDictMixin.__hash__
+
     def __getitem__(self, key):
         for d in self.dicts:
             if key in d:
-- 
2.43.0


From c908df5ae8018c53c44cf985cb6140367aae2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 60/67] fix: an ordered multi dict is not equal to any other
 kind of object

---
 verktyg/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index dd4d825..3c68a7b 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -695,7 +695,7 @@ class OrderedMultiDict(MultiDict):
         return True
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        return not self == other
 
     def __reduce_ex__(self, protocol):
         return type(self), (list(self.items(multi=True)),)
-- 
2.43.0


From 38b9f167605d86be1f7b1dc4cec92aa509141606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 61/67] fix: compare the headers of a request with any other
 object

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 26dc7ec..c5b9ecf 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -285,7 +285,10 @@ class EnvironHeaders(http.ImmutableHeadersMixin, http.Headers):
         self.environ = environ
 
     def __eq__(self, other):
-        return self.environ is other.environ
+        return (
+            other.__class__ is self.__class__ and
+            self.environ is other.environ
+        )
 
     def __getitem__(self, key, _get_mode=False):
         # _get_mode is a no-op for this class as there is no index but
-- 
2.43.0


From 708f4f783115949cf1f5e0c5005676c75033f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:05 +0000
Subject: [PATCH 62/67] fix: let the expose decorator of a builder be used for
 several functions

---
 verktyg/application.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verktyg/application.py b/verktyg/application.py
index 7f5380f..87ba747 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -161,16 +161,16 @@ class ApplicationBuilder(object):
         """ Decorator to bind a function to an endpoint and optionally the
         endpoint to a route.
         """
+        route = kwargs.pop('route', None)
+
         def wrapper(f):
-            nonlocal endpoint
-            if endpoint is None:
-                endpoint = f.__name__
+            # the decorator might be used for several functions
+            name = f.__name__ if endpoint is None else endpoint
 
-            route = kwargs.pop('route', None)
             if route is not None:
-                self.add_routes(Route(route, endpoint=endpoint))
+                self.add_routes(Route(route, endpoint=name))
 
-            return expose(self, endpoint, *args, **kwargs)(f)
+            return expose(self, name, *args, **kwargs)(f)
         return wrapper
 
     def add_middleware(self, middleware, *args, **kwargs):
-- 
2.43.0


From 35d5dbfc03159cc434a0fe513607b583e3f532e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 63/67] fix: build URLs for values that are bytes

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index c78793e..78ed783 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -821,7 +821,9 @@ class BaseConverter(object):
         return value
 
     def to_url(self, value):
-        if not isinstance(value, (str, bytes)):
+        if isinstance(value, bytes):
+            return urlquote(value, safe='/:')
+        if not isinstance(value, str):
             value = str(value)
         return urlquote(value, encoding=self.router.charset, safe='/:')
 
-- 
2.43.0


From 01020c9a66156119991e9500b8c6b5f57bfee0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:47 +0000
Subject: [PATCH 64/67] fix: readlines comes to an end when on_disconnect does
 not raise

---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index c5b9ecf..ff9fc67 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -940,7 +940,11 @@ class LimitedStream(object):
                 size -= last_pos - self._pos
             if self._pos >= end:
                 break
-            result.append(self.readline(size))
+            line = self.readline(size)
+            if not line:
+                # the client is gone and :meth:`on_disconnect` did not raise
+                break
+            result.append(line)
             if size is not None:
                 last_pos = self._pos
         return result
-- 
2.43.0


From aad7101092f308faef6a9b6641450809e8f760e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:56 +0000
Subject: [PATCH 65/67] fix: JSON views leave every kind of response alone

---
 verktyg/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/views.py b/verktyg/views.py
index b541e27..9e3ea63 100644
--- a/verktyg/views.py
+++ b/verktyg/views.py
@@ -7,7 +7,7 @@
 """
 import json
 
-from verktyg.responses import Response
+from verktyg.responses import BaseResponse, Response
 from verktyg.dispatch import BindingFactory, Binding
 
 
@@ -81,7 +81,7 @@ class JsonView(View):
     def __call__(self, env, req, *args, **kwargs):
         res = super(JsonView, self).__call__(env, req, *args, **kwargs)
 
-        if isinstance(res, Response):
+        if isinstance(res, BaseResponse):
             # rendering already done
             return res
 
-- 
2.43.0


From b3231de608f428ee5896d96e6c4aa06a21cb993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 66/67] fix: a MultiDict made from a dict with an empty list
 has no such key

---
 verktyg/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 3c68a7b..4da3409 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -336,6 +336,8 @@ class MultiDict(TypeConversionDict):
             for key, value in mapping.items():
                 if isinstance(value, (tuple, list)):
                     value = list(value)
+                    if not value:
+                        continue
                 else:
                     value = [value]
                 tmp[key] = value
-- 
2.43.0


From edab3ec6ab3ac0ed0270c04289a8c81ec71fc976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 67/67] fix: |= of a MultiDict updates it

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4da3409..0fcabd6 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -562,6 +562,10 @@ class MultiDict(TypeConversionDict):
         for key, value in iter_multi_items(other_dict):
             MultiDict.add(self, key, value)
 
+    def __ior__(self, other_dict):
+        self.update(other_dict)
+        return self
+
     def pop(self, key, default=_missing):
         """Pop the first item for a list on the dict.  Afterwards the
         key is removed from the dict, so additional values are discarded:
-- 
2.43.0

