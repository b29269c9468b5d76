From dd8b623b20dc33614f3e59f46339065f0aa533d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 01/72] fix: Heap indexing and slicing with negative and
 out-of-range indices

---
 big/heap.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/big/heap.py b/big/heap.py
index 187902e..54ccce9 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -123,12 +123,7 @@ class Heap:
         if isinstance(item, slice):
             if item.step in (None, 1):
                 length = len(self._queue)
-                start = item.start or 0
-                stop = item.stop if item.stop is not None else length
-                if start < 0:
-                    start += length
-                if stop < 0:
-                    stop += length
+                start, stop, _ = item.indices(length)
                 if start == 0:
                     return nsmallest(stop, self._queue)
                 if stop == length:
@@ -139,14 +134,13 @@ class Heap:
             # fall through! it'll work!
         elif item == 0:
             return self._queue[0]
-        elif item == -1:
-            return max(self._queue)
         elif 0 < item < 10:
             l = nsmallest(item + 1, self._queue)
             return l[item]
         elif -10 < item < 0:
-            l = nlargest((-item) + 1, self._queue)
-            return l[item]
+            # again, nlargest returns the largest in reverse order
+            l = nlargest(-item, self._queue)
+            return l[-item - 1]
         l = sorted(self._queue)
         # __getitem__ on a list handles ints and slices!
         return l[item]
-- 
2.43.0


From 21679bef95dbb35f2641e9cbf22be86567b9c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 02/72] fix: repr of an empty Heap raised IndexError

---
 big/heap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index 54ccce9..7a9bb89 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -59,7 +59,8 @@ class Heap:
 
     def __repr__(self):
         id_string = hex(id(self))[-6:]
-        return f"<Heap {id_string} len={len(self._queue)} first={self._queue[0]}>"
+        first = f" first={self._queue[0]}" if self._queue else ""
+        return f"<Heap {id_string} len={len(self._queue)}{first}>"
 
     def append(self, o):
         heappush(self._queue, o)
-- 
2.43.0


From 733131cb5f8f48efc810de7cc2dcff360c6af25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 03/72] fix: Heap iterators were not themselves iterable

---
 big/heap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/heap.py b/big/heap.py
index 7a9bb89..f3dc120 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -152,6 +152,9 @@ class Heap:
             self._copy = heap._queue.copy()
             self._version = heap._version
 
+        def __iter__(self):
+            return self
+
         def __next__(self):
             if self._version != self._heap._version:
                 raise RuntimeError("heap modified during iteration")
-- 
2.43.0


From a19e95e927ff55914f15267e851f94fbd5ab4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 04/72] fix: PushbackIterator.__next__ swallowed exceptions
 raised by the wrapped iterator

---
 big/itertools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/itertools.py b/big/itertools.py
index e385373..6faef73 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -44,7 +44,7 @@ class PushbackIterator:
         if self.i:
             try:
                 return next(self.i)
-            except:
+            except StopIteration:
                 self.i = None
         raise StopIteration
 
-- 
2.43.0


From 4a5c8d4b43a0181750925e2582710aac7a3be9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 05/72] fix: PushbackIterator judged the wrapped iterator by
 its truth value

---
 big/itertools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big/itertools.py b/big/itertools.py
index 6faef73..29a8c8c 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -20,7 +20,7 @@ class PushbackIterator:
     __slots__ = ('i', 'stack')
 
     def __init__(self, iterable=None):
-        if (iterable != None) and (not hasattr(iterable, '__next__')):
+        if (iterable is not None) and (not hasattr(iterable, '__next__')):
             iterable = iter(iterable)
         self.i = iterable
         self.stack = []
@@ -41,7 +41,7 @@ class PushbackIterator:
     def __next__(self):
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -57,7 +57,7 @@ class PushbackIterator:
         """
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -67,7 +67,7 @@ class PushbackIterator:
     def __bool__(self):
         if self.stack:
             return True
-        if self.i:
+        if self.i is not None:
             try:
                 o = next(self.i)
                 self.push(o)
-- 
2.43.0


From 2c554470fef9aa3fcd5477417f1d7d36e9754331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 06/72] fix: number conversion helpers could raise
 (OverflowError, ...) instead of returning the default

---
 big/builtin.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index 7cca96a..8ca7e10 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -48,7 +48,7 @@ def try_float(o):
     try:
         float(o)
         return True
-    except (TypeError, ValueError):
+    except Exception:
         return False
 
 @export
@@ -60,7 +60,7 @@ def try_int(o):
     try:
         int(o)
         return True
-    except (TypeError, ValueError):
+    except Exception:
         return False
 
 _sentinel = object()
@@ -75,7 +75,7 @@ def get_float(o, default=_sentinel):
     """
     try:
         return float(o)
-    except (TypeError, ValueError):
+    except Exception:
         if default != _sentinel:
             return default
         return o
@@ -90,7 +90,7 @@ def get_int(o, default=_sentinel):
     """
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except Exception:
         if default != _sentinel:
             return default
         return o
@@ -113,18 +113,22 @@ def get_int_or_float(o, default=_sentinel):
     if isinstance(o, int):
         return o
     if isinstance(o, float):
-        int_o = int(o)
-        if int_o == o:
-            return int_o
+        try:
+            int_o = int(o)
+            if int_o == o:
+                return int_o
+        except Exception:
+            # infinities and NaNs can't be converted to int
+            pass
         return o
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except Exception:
         try:
             # if you pass in the *string* "0.0",
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
-        except (TypeError, ValueError):
+        except Exception:
             if default != _sentinel:
                 return default
             return o
-- 
2.43.0


From 16dc3c4ed8239ce022e8b645b1756633dd62214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 07/72] fix: get_int and friends compared the default value
 with !=

---
 big/builtin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index 8ca7e10..90e96a0 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -76,7 +76,7 @@ def get_float(o, default=_sentinel):
     try:
         return float(o)
     except Exception:
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -91,7 +91,7 @@ def get_int(o, default=_sentinel):
     try:
         return int(o)
     except Exception:
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -129,7 +129,7 @@ def get_int_or_float(o, default=_sentinel):
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
         except Exception:
-            if default != _sentinel:
+            if default is not _sentinel:
                 return default
             return o
 
-- 
2.43.0


From 9470fcbca63be17d0a5a9bb455e4e4b8365838ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 08/72] fix: Version rejected upper-case pre-release labels
 with AssertionError

---
 big/version.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/version.py b/big/version.py
index 6138dc7..dd4be21 100644
--- a/big/version.py
+++ b/big/version.py
@@ -210,6 +210,7 @@ class Version:
             release_level = get('pre_l')
             if release_level is None:
                 release_level = 'final'
+            release_level = release_level.lower()
             release_level = _release_level_normalize.get(release_level, release_level)
             # don't need to validate this, it's constrained by the regex
             # if release_level not in _release_level_allowed_values:
-- 
2.43.0


From 8392aa3d5632484b56680fde527720cdb6c5188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 09/72] fix: Version ignored 'post' and 'dev' segments without
 a number

---
 big/version.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/version.py b/big/version.py
index dd4be21..95e9754 100644
--- a/big/version.py
+++ b/big/version.py
@@ -231,6 +231,9 @@ class Version:
             elif post_n2 is not None:
                 assert post_l is not None
                 post = post_n2
+            elif post_l is not None:
+                # implicit post release number
+                post = 0
             else:
                 post = None
 
@@ -240,6 +243,9 @@ class Version:
             dev = get('dev_n')
             if dev is not None:
                 assert dev_l is not None
+            elif dev_l is not None:
+                # implicit development release number
+                dev = 0
             dev = int(dev) if dev is not None else None
 
             local = original_local = get('local')
-- 
2.43.0


From c7bca0dcc89c45f409c8873dc348f3d6fcbfac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 10/72] fix: equal Version objects could have different hashes

---
 big/version.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/big/version.py b/big/version.py
index 95e9754..b74b5d7 100644
--- a/big/version.py
+++ b/big/version.py
@@ -359,15 +359,7 @@ class Version:
 
 
     def __hash__(self):
-        return (
-            hash(self._epoch)
-            ^ hash(self._release)
-            ^ hash(self._release_level)
-            ^ hash(self._serial)
-            ^ hash(self._post)
-            ^ hash(self._dev)
-            ^ hash(self._local)
-            )
+        return hash(self._tuple)
 
     @property
     def epoch(self):
-- 
2.43.0


From 43181d75187d986a730e547134b3704565984301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 11/72] fix: Version built from keywords kept trailing zeros in
 release

---
 big/version.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/big/version.py b/big/version.py
index b74b5d7..f1739ca 100644
--- a/big/version.py
+++ b/big/version.py
@@ -200,13 +200,6 @@ class Version:
             epoch = int(epoch) if epoch is not None else None
 
             release = [int(_) for _ in get('release').split('.')]
-            # if S is a release string, and T is S+".0",
-            # S and T represent the same version.
-            # so, let's clip off all trailing zero elements on release.
-            while (len(release) > 1) and (not release[-1]):
-                release.pop()
-            release = tuple(release)
-
             release_level = get('pre_l')
             if release_level is None:
                 release_level = 'final'
@@ -252,6 +245,14 @@ class Version:
             if local is not None:
                 local = tuple(local.replace('-', '.').replace('_', '.').split('.'))
 
+        # if S is a release string, and T is S+".0",
+        # S and T represent the same version.
+        # so, let's clip off all trailing zero elements on release.
+        release = list(release)
+        while (len(release) > 1) and (not release[-1]):
+            release.pop()
+        release = tuple(release)
+
         if local:
             # if local is true, it's an iterable of strings.
             # convert elements to ints where possible, leave as strings otherwise.
-- 
2.43.0


From ce64a0b95c2c16cb0d151447a47114db8ebe8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 12/72] fix: Version accepted negative numbers in release

---
 big/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index f1739ca..7f572be 100644
--- a/big/version.py
+++ b/big/version.py
@@ -122,7 +122,7 @@ class Version:
             elif not (isinstance(epoch, int) and (epoch >= 0)):
                 raise ValueError(f"epoch must be non-negative int or None, not {epoch!r}")
 
-            if not (isinstance(release, tuple) and release and all(isinstance(element, int) for element in release)):
+            if not (isinstance(release, tuple) and release and all(isinstance(element, int) and (element >= 0) for element in release)):
                 raise ValueError(f"release must be a tuple of length 1+ containing only ints, not {release!r}")
 
             original_release_level = release_level
-- 
2.43.0


From 48a04522fdf83265ac43f062e050bee394e3e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 13/72] fix: Version rejected the documented release_level
 abbreviations as keywords

---
 big/version.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/version.py b/big/version.py
index 7f572be..0c97daa 100644
--- a/big/version.py
+++ b/big/version.py
@@ -128,6 +128,8 @@ class Version:
             original_release_level = release_level
             if release_level is None:
                 release_level = 'final'
+            elif isinstance(release_level, str):
+                release_level = _release_level_normalize.get(release_level, release_level)
             if not (release_level in _release_level_allowed_values):
                 raise ValueError(f"release_level {release_level!r} must be one of 'alpha', 'beta', 'rc', 'final', or None")
 
-- 
2.43.0


From 5d272f6798cfd2079d707328f98d47ace6b7c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 14/72] fix: Version accepted a serial number on a final
 release, then failed in str()

---
 big/version.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/version.py b/big/version.py
index 0c97daa..ae4cdc4 100644
--- a/big/version.py
+++ b/big/version.py
@@ -138,6 +138,9 @@ class Version:
             elif not (isinstance(serial, int) and (serial >= 0)):
                 raise ValueError(f"serial must be non-negative int or None, not {serial!r}")
 
+            if serial and (release_level == 'final'):
+                raise ValueError(f"serial must be 0 or None for a final release, not {serial!r}")
+
             if not ((post is None) or (isinstance(post, int) and (post >= 0))):
                 raise ValueError(f"post must be non-negative int or None, not {post!r}")
 
-- 
2.43.0


From f1e1fec3145588079fed92276bd3085a032e6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 15/72] fix: Version compared local segments case-sensitively
 and allowed a newline in them

---
 big/version.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index ae4cdc4..4a90e79 100644
--- a/big/version.py
+++ b/big/version.py
@@ -91,7 +91,7 @@ _re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE).matc
 
 del VERSION_PATTERN
 
-_re_is_valid_local_segment = re.compile("^[A-Za-z0-9]+$").match
+_re_is_valid_local_segment = re.compile(r"^[A-Za-z0-9]+\Z").match
 
 
 
@@ -260,6 +260,8 @@ class Version:
 
         if local:
             # if local is true, it's an iterable of strings.
+            # local versions are case-insensitive and normalize to lower case.
+            local = tuple(element.lower() for element in local)
             # convert elements to ints where possible, leave as strings otherwise.
             compare_local = tuple((2, int(element)) if element.isdigit() else (1, element) for element in local)
         else:
-- 
2.43.0


From 290a715b64ab428258fe5be41d47460669ae2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 16/72] fix: timestamps of struct_time misread local timezones
 that are called GMT but aren't UTC

---
 big/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big/time.py b/big/time.py
index 4212e19..2b6360c 100644
--- a/big/time.py
+++ b/big/time.py
@@ -74,8 +74,8 @@ def timestamp_human(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
-            t = calendar.timegm(t)
+        if t.tm_gmtoff is not None:
+            t = calendar.timegm(t) - t.tm_gmtoff
         else:
             t = time.mktime(t)
         # force None to False
@@ -138,8 +138,8 @@ def timestamp_3339Z(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
-            t = calendar.timegm(t)
+        if t.tm_gmtoff is not None:
+            t = calendar.timegm(t) - t.tm_gmtoff
         else:
             t = time.mktime(t)
         want_microseconds = bool(want_microseconds)
-- 
2.43.0


From dc269d53968c4b06a05a3644079b28e600fa7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 17/72] fix: timestamps of years before 1000 had fewer than
 four digits in the year

---
 big/time.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/big/time.py b/big/time.py
index 2b6360c..0242795 100644
--- a/big/time.py
+++ b/big/time.py
@@ -43,7 +43,7 @@ def export(o):
 
 
 
-_timestamp_human_format = "%Y/%m/%d %H:%M:%S"
+_timestamp_human_format = "/%m/%d %H:%M:%S"
 
 @export
 def timestamp_human(t=None, want_microseconds=None):
@@ -97,13 +97,14 @@ def timestamp_human(t=None, want_microseconds=None):
         # if it's still None, t must be a type that supports microseconds
         want_microseconds = True
 
-    s = t.strftime(_timestamp_human_format)
+    # strftime's %Y doesn't reliably zero-pad the year
+    s = f"{t.year:04d}{t.strftime(_timestamp_human_format)}"
     if want_microseconds:
         s = f"{s}.{t.microsecond:06d}"
     return s
 
 
-_timestamp_3339Z_format_base = "%Y-%m-%dT%H:%M:%S"
+_timestamp_3339Z_format_base = "-%m-%dT%H:%M:%S"
 _timestamp_3339Z_format = f"{_timestamp_3339Z_format_base}Z"
 _timestamp_3339Z_microseconds_format = f"{_timestamp_3339Z_format_base}.%fZ"
 
@@ -166,7 +167,8 @@ def timestamp_3339Z(t=None, want_microseconds=None):
     else:
         f = _timestamp_3339Z_format
 
-    return t.strftime(f)
+    # strftime's %Y doesn't reliably zero-pad the year
+    return f"{t.year:04d}{t.strftime(f)}"
 
 
 @export
-- 
2.43.0


From c71b201717edfc006ff780a9fee782a8d1299e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 18/72] fix: datetime_ensure_timezone judged the existing
 tzinfo by its truth value

---
 big/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/time.py b/big/time.py
index 0242795..63aee01 100644
--- a/big/time.py
+++ b/big/time.py
@@ -200,7 +200,7 @@ def datetime_ensure_timezone(d, timezone):
     object equivalent to d with its tzinfo set
     to timezone.
     """
-    if d.tzinfo:
+    if d.tzinfo is not None:
         return d
     return datetime_set_timezone(d, timezone)
 
-- 
2.43.0


From 5a46d7c7e257de87c68837620401261cc2a67523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 19/72] fix: pushd restored the directory current when it was
 created, not when it was entered

---
 big/file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/file.py b/big/file.py
index d9bcf65..7631983 100644
--- a/big/file.py
+++ b/big/file.py
@@ -192,11 +192,13 @@ class pushd:
     """
     def __init__(self, path):
         self.path = path
-        self.cwd = os.getcwd()
+        self.cwds = []
     def __enter__(self):
+        cwd = os.getcwd()
         os.chdir(self.path)
+        self.cwds.append(cwd)
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
 @export
-- 
2.43.0


From a355c89174736fa1d6ab2f37b885d0a3b6d0289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 20/72] fix: grep and fgrep reported an extra empty line after
 the last line-break

---
 big/file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/file.py b/big/file.py
index 7631983..3758e06 100644
--- a/big/file.py
+++ b/big/file.py
@@ -94,6 +94,9 @@ def fgrep(path, text, *, encoding=None, enumerate=False, case_insensitive=False)
     with f:
         contents = f.read()
         split = contents.split(separator)
+        if not split[-1]:
+            # a trailing line-break ends the last line, it doesn't start another
+            split.pop()
         if not case_insensitive:
             if enumerate:
                 return [t for t in builtins.enumerate(split, 1) if text in t[1]]
@@ -167,6 +170,9 @@ def grep(path, pattern, *, encoding=None, enumerate=False, flags=0):
     with f:
         text = f.read()
         split = text.split(separator)
+        if not split[-1]:
+            # a trailing line-break ends the last line, it doesn't start another
+            split.pop()
         if enumerate:
             return [t for t in builtins.enumerate(split, 1)
                     if pattern.search(t[1])]
-- 
2.43.0


From bc84dbb8e5527bd0fb039ebaad5e331f35b60fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 21/72] fix: multistrip could strip a final newline that isn't
 a separator, and take exponential time

---
 big/text.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index 58c5e8d..06d1ff9 100644
--- a/big/text.py
+++ b/big/text.py
@@ -896,7 +896,6 @@ def multistrip(s, separators, left=True, right=True):
     if is_bytes:
         s_type = bytes
         head = b'^'
-        tail = b'$'
 
         if isinstance(separators, str):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -911,7 +910,6 @@ def multistrip(s, separators, left=True, right=True):
     else:
         s_type = str
         head = '^'
-        tail = '$'
 
         if isinstance(separators, bytes):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -948,9 +946,13 @@ def multistrip(s, separators, left=True, right=True):
             start = left_match.end(0)
             s = s[start:]
     if right:
-        right_match = re.search(pattern + tail, s)
+        # match the reversed separators against the reversed string.
+        # (searching for pattern + '$' would also match just before a
+        # trailing newline, and could backtrack exponentially.)
+        pattern = __separators_to_re(_multisplit_reversed(separators, 'separators'), is_bytes, separate=False, keep=False)
+        right_match = re.match(head + pattern, _multisplit_reversed(s, 's'))
         if right_match:
-            end = right_match.start(0)
+            end = len(s) - right_match.end(0)
             s = s[:end]
     return s
 
-- 
2.43.0


From 9dfb8e9694e5049c21d11c6880c7b7c3f44b3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 22/72] fix: multisplit exhausted separators if it was an
 iterator

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index 06d1ff9..eda861a 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1252,6 +1252,8 @@ def multisplit(s, separators=None, *,
     if check_separators:
         if not hasattr(separators, '__iter__'):
             raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
+        # separators might be an iterator, only iterate over it once
+        separators = tuple(separators)
         for o in separators:
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
-- 
2.43.0


From 823affeb48c9636090bfbe6317fe6195b2e0363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 23/72] fix: multisplit mishandled maxsplit=None with
 PROGRESSIVE, and maxsplit below -1

---
 big/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index eda861a..793561d 100644
--- a/big/text.py
+++ b/big/text.py
@@ -972,9 +972,7 @@ PROGRESSIVE = "PROGRESSIVE"
 _export_name(PROGRESSIVE)
 
 def multisplit(s, separators, keep, maxsplit, reverse, separate, strip, empty, is_bytes, separators_to_re_keep):
-    if maxsplit == None:
-        maxsplit = -1
-    elif maxsplit == 0:
+    if maxsplit == 0:
         if keep == ALTERNATING:
             yield s
         elif keep == AS_PAIRS:
@@ -1258,6 +1256,10 @@ def multisplit(s, separators=None, *,
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
 
+    # None, and every integer less than 0, mean "no limit".
+    if (maxsplit is None) or (maxsplit < 0):
+        maxsplit = -1
+
     separators_to_re_keep = keep
 
     if strip:
-- 
2.43.0


From ad0c4a26caf565435213a2f3ab885677921fddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 24/72] fix: reversed_re_finditer missed the rightmost match
 when it starts inside an earlier forward match

---
 big/text.py | 271 +++++++++++++++-------------------------------------
 1 file changed, 78 insertions(+), 193 deletions(-)

diff --git a/big/text.py b/big/text.py
index 793561d..54f078b 100644
--- a/big/text.py
+++ b/big/text.py
@@ -490,104 +490,35 @@ def reversed_re_finditer(pattern, string):
     # also work.
 
 
-    # matches and overlapping_matches are lists of 3-tuples of:
-    #    (end_pos, -start_pos, match)
-    # If we sort one of those lists, the last element will be
-    # the correct last match in "reverse" order.  See
-    #    https://en.wikipedia.org/wiki/Schwartzian_transform
+    # We can't decide which match is the last one until we've
+    # looked at every position: the rightmost match can start
+    # inside any of the matches re.finditer found.
     #
-    # matches contains the list of matches we got directly from
-    # re.finditer(), reversed.  since this was found using re in
-    # "forward" order, we need to check every match in this list
-    # for potential overlapping matches.
-    matches = [(match.end(), -match.start(), match) for match in pattern.finditer(string)]
-    if not matches:
-        # print(f"no matches at all! exiting immediately.")
-        return
-
-    # Does this pattern match zero-length strings?
-    zero_length_match = pattern.match(string, 0, 0)
-    if zero_length_match:
-        # This pattern matches zero-length strings.
-        # Since the rules are a little different for
-        # zero-length strings when in reverse mode,
-        # we need to doctor the match results a little.
-
-        # These seem to be the rules:
-        #
-        # In forwards mode, we consider two matches to overlap
-        # if they start at the same position, or if they have
-        # any characters in common.  There's an implicit
-        # zero-length string at the beginning and end of every
-        # string, so if the pattern matches against a zero-length
-        # string at the start or end, and there isn't another
-        # (longer) match that starts at that position, we'll
-        # yield these matches too.  Since only a zero-length
-        # match can start at position len(string), we'll always
-        # yield a zero-length match starting and ending at
-        # position length(string) if the pattern matches there.
-        #
-        # In reverse mode, we consider two matches to overlap
-        # if they end at the same position, or if they have any
-        # characters in common with any other match.  There's an
-        # implicit zero-length string at the beginning and end of
-        # every string, so if the pattern matches a zero-length
-        # string at the start or end, and there isn't another
-        # (longer) match that ends at that position, we'll yield
-        # these matches too.  Since only a zero-length match can
-        # end at position 0, we'll always yield a zero-length
-        # match starting and ending at position 0 if the pattern
-        # matches there.
-
-        # We need to ensure that, for every non-zero-length match,
-        # if the pattern matches a zero-length string starting at
-        # the same position, we have that zero-length match in
-        # matches too.
-        #
-        # So specifically we're going to do this:
-        #
-        # for every match m in matches:
-        #   if m has nonzero length,
-        #     and the pattern matches a zero-length string
-        #       starting at m,
-        #     ensure that the zero-length match is also in matches.
-        #   elif m has zero length,
-        #     if we've already ensured that a zero-length
-        #     match starting at m.start() is in matches,
-        #     discard m.
-
-        zeroes = set()
-        new_matches = []
-        append = new_matches.append
-        last_start = -1
-        for t in matches:
-            match = t[2]
-            start, end = match.span()
-
-            if start not in zeroes:
-                if (start == end):
-                    append(t)
-                    zeroes.add(start)
-                    continue
-
-                zero_match = pattern.match(string, start, start)
-                if zero_match:
-                    t_zero_length = (start, -start, zero_match)
-                    append(t_zero_length)
-                zeroes.add(start)
-            append(t)
-        # del zeroes
-        matches = new_matches
-
-    matches.sort()
-
-    # overlapping_matches is a list of the possibly-viable
-    # overlapping matches we found from checking a match
-    # we got from "matches".
-    overlapping_matches = []
-
-    result = []
-    match = None
+    # (There's no need to examine positions that aren't part of
+    # a match, re.finditer already told us nothing matches there.)
+    #
+    # matches is a heap of 3-tuples of
+    #    (-end_pos, start_pos, match)
+    # so the first element is the correct last match in "reverse"
+    # order: the one that ends rightmost, and of those the longest.
+    # There's only ever one match in the heap for a particular
+    # start_pos, so we never compare two match objects.
+    pattern_match = pattern.match
+    candidates = {}
+    for match in pattern.finditer(string):
+        start, end = match.span()
+        # If re.finditer finds both a zero-length match and
+        # a longer match starting here, this keeps the longer match.
+        candidates[start] = match
+        for pos in range(start + 1, end):
+            match = pattern_match(string, pos)
+            if match:
+                candidates[pos] = match
+
+    matches = [(-match.end(), start, match) for start, match in candidates.items()]
+    heapq.heapify(matches)
+    heappop = heapq.heappop
+    heappush = heapq.heappush
 
     # We truncate each match at the start
     # of the previously yielded match.
@@ -596,106 +527,60 @@ def reversed_re_finditer(pattern, string):
     # to extend all the way to the end of the string.
     previous_match_start = len(string)
 
-    # cache some method lookups
-    pattern_match = pattern.match
-    append = overlapping_matches.append
+    while matches:
+        negated_end, start, match = heappop(matches)
+        end = -negated_end
 
-    while True:
-        if overlapping_matches:
-            # overlapping_matches contains the overlapping
-            # matches found *last* time around, before we
-            # yielded the most recent match.
-            #
-            # The thing is, some of these matches might overlap that match.
-            # But we only yield *non*-overlapping matches.  So we need to
-            # filter the matches in overlapping_matches accordingly.
-
-            truncated_matches = []
-            # (overlapping_matches will be set to truncated_matches in a few lines)
-            append = truncated_matches.append
-
-            for t in overlapping_matches:
-                end, negated_start, match = t
-                start = -negated_start
-                if start > previous_match_start:
-                    # This match starts *after* the previous match started.
-                    # All matches starting at this position are no longer
-                    # viable.  Throw away the match.
-                    continue
-                if end <= previous_match_start:
-                    # This match ends *before* the previous match started.
-                    # In other words, this match is still 100% viable.
-                    # Keep it, we don't need to change it at all.
-                    append(t)
-                    continue
+        if end <= previous_match_start:
+            # This match is viable, and it's the rightmost.
+            previous_match_start = start
+            yield match
+            if start == end:
+                continue
 
-                # This match starts before the previous match started,
-                # but ends after the previous match start.
-                # In other words, it overlaps the previous match.
-                #
-                # So this match is itself no longer viable.  But!
-                # There might be a *different* match starting at this
-                # position in the string.  So we do a fresh re.match here,
-                # stopping at the start of the previously yielded match.
-                # (That's the third parameter, "endpos".)
-
-                match = pattern_match(string, start, previous_match_start)
-                if match:
-                    append((match.end(), -start, match))
-
-            overlapping_matches = truncated_matches
-
-        if (not overlapping_matches) and matches:
-            # We don't currently have any pre-screened
-            # overlapping matches we can use.
+            # If the pattern also matches a zero-length string
+            # starting here, that's a separate match, because
+            # it ends at a different position.
+            # These seem to be the rules:
             #
-            # But we *do* have a match (or matches) found in forwards mode.
-            # Grab the next one that's still viable.
-
-            scan_for_overlapping_matches = False
-            while matches:
-                t = matches.pop()
-                end, negated_start, match = t
-                start = -negated_start
-                if end <= previous_match_start:
-                    assert start <= previous_match_start
-                    append(t)
-                    start += 1
-                    scan_for_overlapping_matches = True
-                    break
-
-            if scan_for_overlapping_matches:
-                # We scan every** position inside the match for an
-                # overlapping match.  All the matches we find go in
-                # overlapping_matches, then we sort it and yield
-                # the last one.
-                #
-                # ** We don't actually need to check the *first* position,
-                #    "start", because we already know what we'll find:
-                #    the match that we got from re.finditer() and
-                #    scanned for overlaps.
-                #
-                # As mentioned, the match we got from finditer
-                # is viable here, so add it to the list.
-
-                end = min(end, previous_match_start)
-                for pos in range(start, end):
-                    match = pattern_match(string, pos, previous_match_start)
-                    if match:
-                        # print(f"  found {match=}")
-                        append((match.end(), -pos, match))
-
-        if not overlapping_matches:
-            # matches and overlapping matches are both empty.
-            # We've exhausted the matches.  Stop iterating.
-            return
+            # In forwards mode, we consider two matches to overlap
+            # if they start at the same position, or if they have
+            # any characters in common.  There's an implicit
+            # zero-length string at the beginning and end of every
+            # string, so if the pattern matches against a zero-length
+            # string at the start or end, and there isn't another
+            # (longer) match that starts at that position, we'll
+            # yield these matches too.  Since only a zero-length
+            # match can start at position len(string), we'll always
+            # yield a zero-length match starting and ending at
+            # position length(string) if the pattern matches there.
+            #
+            # In reverse mode, we consider two matches to overlap
+            # if they end at the same position, or if they have any
+            # characters in common with any other match.  There's an
+            # implicit zero-length string at the beginning and end of
+            # every string, so if the pattern matches a zero-length
+            # string at the start or end, and there isn't another
+            # (longer) match that ends at that position, we'll yield
+            # these matches too.  Since only a zero-length match can
+            # end at position 0, we'll always yield a zero-length
+            # match starting and ending at position 0 if the pattern
+            # matches there.
+
+        elif start > previous_match_start:
+            # This match starts *after* the previous match started.
+            # All matches starting at this position are no longer
+            # viable.  Throw away the match.
+            continue
 
-        # overlapping_matches is now guaranteed current and non-empty.
-        # We sort it so the rightmost match is last, and yield that.
-        overlapping_matches.sort()
-        match = overlapping_matches.pop()[2]
-        previous_match_start = match.start()
-        yield match
+        # The text from here to the start of the previously yielded
+        # match might contain a *different* match starting at this
+        # position in the string.  So we do a fresh re.match here,
+        # stopping at the start of the previously yielded match.
+        # (That's the third parameter, "endpos".)
+        match = pattern_match(string, start, previous_match_start)
+        if match:
+            heappush(matches, (-match.end(), start, match))
 
 _reversed_re_finditer = reversed_re_finditer
 
-- 
2.43.0


From 98ab8eabcabc68613f4238b89db35fd6bb5b0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 25/72] fix: re_partition and re_rpartition partitioned at the
 first (last) appearance of the matched text, not at the match

---
 big/text.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/big/text.py b/big/text.py
index 54f078b..b1ebc87 100644
--- a/big/text.py
+++ b/big/text.py
@@ -441,8 +441,8 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
         match = pattern.search(s)
         if not match:
             return (s, None, empty)
-        before, separator, after = s.partition(match.group(0))
-        return (before, match, after)
+        start, end = match.span()
+        return (s[:start], match, s[end:])
 
     if count == 0:
         return (s,)
@@ -453,17 +453,19 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
     result = []
     extend = result.extend
     matches_iterator = pattern.finditer(s)
+    previous_end = 0
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            before, separator, s = s.partition(match.group(0))
-            extend((before, match))
+            start, end = match.span()
+            extend((s[previous_end:start], match))
+            previous_end = end
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[previous_end:])
     return tuple(result) + extension
 
 
@@ -672,8 +674,8 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
         matches_iterator = reversed_re_finditer(pattern, s, flags)
         try:
             match = next(matches_iterator)
-            before, separator, after = s.rpartition(match.group(0))
-            return (before, match, after)
+            start, end = match.span()
+            return (s[:start], match, s[end:])
         except StopIteration:
             return (empty, None, s)
 
@@ -686,17 +688,19 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
     result = []
     extend = result.extend
     matches_iterator = reversed_re_finditer(pattern, s, flags)
+    previous_start = len(s)
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            s, separator, after = s.rpartition(match.group(0))
-            extend((after, match))
+            start, end = match.span()
+            extend((s[end:previous_start], match))
+            previous_start = start
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[:previous_start])
     result.reverse()
     return extension + tuple(result)
 
-- 
2.43.0


From a0f105f995fa367ecce1e32500485b95a5474b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 26/72] fix: gently_title didn't capitalize the word after a
 lone O, D, apostrophe or quote mark

---
 big/text.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index b1ebc87..2084001 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1608,17 +1608,24 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
                 else:
                     state = _in_word
         elif state == _after_whitespace_then_apostrophe_or_double_quote:
-            if not (is_apostrophe or is_double_quote):
+            if is_space:
+                state = _after_whitespace
+            elif not (is_apostrophe or is_double_quote):
                 c = c.upper()
                 state = _in_word
         elif state == _after_whitespace_then_D_or_O:
-            if is_apostrophe:
+            if is_space:
+                state = _after_whitespace
+            elif is_apostrophe:
                 state = _after_whitespace_then_D_or_O_then_apostrophe
             else:
                 state = _in_word
         elif state == _after_whitespace_then_D_or_O_then_apostrophe:
-            c = c.upper()
-            state = _in_word
+            if is_space:
+                state = _after_whitespace
+            else:
+                c = c.upper()
+                state = _in_word
         result.append(c)
     return empty.join(result)
 
-- 
2.43.0


From 89f0a877ead099011884587fc7aab11f65bdd45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 27/72] fix: split_quoted_strings escapes were ignored for
 multiline quotes, and honored outside quotes; longer quote marks hid the
 closing quote

---
 big/text.py | 51 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/big/text.py b/big/text.py
index 2084001..975ad38 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1770,7 +1770,7 @@ _sqs_escape_str   =  '\\'
 _sqs_escape_bytes = b'\\'
 
 
-def split_quoted_strings(s, separators, all_quotes_set, quotes, multiline_quotes, empty, laden, state):
+def split_quoted_strings(s, patterns, all_quotes_set, quotes, multiline_quotes, empty, laden, state):
     """
     This is the generator function implementing the split_quoted_strings
     iterator.  The public split_quoted_strings analyzes its arguments,
@@ -1782,9 +1782,18 @@ def split_quoted_strings(s, separators, all_quotes_set, quotes, multiline_quotes
 
     quote = state
     # print(f"    >> {state=}")
-    for pair in multisplit(s, separators, keep=AS_PAIRS, separate=True):
-        # print(f"    >> {pair}  -- {quote=}")
-        literal, separator = pair
+    pos = 0
+    separator = True
+    while separator:
+        match = patterns[quote].search(s, pos)
+        if match:
+            literal = s[pos:match.start()]
+            separator = match.group(0)
+            pos = match.end()
+        else:
+            literal = s[pos:]
+            separator = empty
+        # print(f"    >> {literal=} {separator=}  -- {quote=}")
 
         if literal:
             buffer.append(literal)
@@ -2019,20 +2028,26 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
             s = ', '.join(repr(_) for _ in in_both_quotes_sets)
         raise ValueError(f"{s} appears in both quotes and multiline_quotes")
 
-    # separators is a list containing all quote marks,
-    separators = list(quotes_set)
-    separators.extend(multiline_quotes_set)
-
-    # and also all escaped quote marks.
-    if escape:
-        for first_character in {q[0:] for q in quotes}:
-            separators.append(escape + first_character)
-        separators.append(escape + escape)
-
-    # help multisplit work better--it memoizes the conversion to a regular expression
-    separators.sort()
-
-    return _split_quoted_strings(s, separators, all_quotes_set, quotes_set, multiline_quotes_set, empty, laden, state)
+    # patterns maps the current quote mark to a regular expression
+    # matching everything we need to stop at.
+    #
+    # when we're not inside quotes, that's every quote mark.
+    # (sorting the separators helps _separators_to_re, it's memoized.)
+    def compile(separators):
+        return re.compile(_separators_to_re(tuple(sorted(separators)), is_bytes, separate=True))
+
+    patterns = {empty: compile(all_quotes_set)}
+
+    # when we're inside quotes, it's the matching quote mark,
+    # and that same quote mark when it's escaped.
+    for q in all_quotes_set:
+        separators = [q]
+        if escape:
+            separators.append(escape + q)
+            separators.append(escape + escape)
+        patterns[q] = compile(separators)
+
+    return _split_quoted_strings(s, patterns, all_quotes_set, quotes_set, multiline_quotes_set, empty, laden, state)
 
 
 @_export
-- 
2.43.0


From 2250ec4fe546de842226b2739b4714e0a9c835bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 28/72] fix: split_delimiters repeated text when a token
 ignored inside quotes preceded overlapping tokens

---
 big/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/text.py b/big/text.py
index 975ad38..3a05a84 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2554,6 +2554,7 @@ def split_delimiters(text, all_tokens, current, stack, empty, laden, str_or_byte
                 consumed += len(delimiter)
             elif action is _ACTION_FLUSH:
                 append(delimiter)
+                consumed += len(delimiter)
             elif action is _ACTION_FLUSH_1_AND_RESPLIT:
                 # flush first character of delimiter, and resplit.
                 append(delimiter[0:1])
-- 
2.43.0


From 7cd2bc1625d24e647f69315fb4a17285a7c7905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 29/72] fix: lines_strip_indent rejected dedents of several
 levels at once

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 3a05a84..41423f5 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3561,8 +3561,8 @@ def lines_strip_indent(li):
             indent -= 1
             while leadings:
                 l = leadings[-1]
-                if l >= column_number:
-                    if l > column_number:
+                if l <= column_number:
+                    if l < column_number:
                         leadings.clear()
                     break
                 leadings.pop()
-- 
2.43.0


From 3bb4baaf143eef7b96e013bdc0bcd845bdc4dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 30/72] fix: lines_strip with separators clipped at the first
 appearance of the stripped text

---
 big/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 41423f5..3efc3ea 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3084,9 +3084,11 @@ def lines_strip(li, separators=None):
         for info, line in li:
             leading = trailing = None
             if line:
-                stripped = multistrip(line, separators)
+                lstripped = multistrip(line, separators, left=True, right=False)
+                stripped = multistrip(lstripped, separators, left=False, right=True)
                 if stripped:
-                    leading, _, trailing = line.partition(stripped)
+                    leading = line[:len(line) - len(lstripped)]
+                    trailing = lstripped[len(stripped):]
                 else:
                     trailing = line
 
-- 
2.43.0


From 34bed0f5ff86b004e723731e965fe8817135e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 31/72] fix: lines_strip and lines_rstrip exhausted separators
 if it was an iterator

---
 big/text.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/big/text.py b/big/text.py
index 3efc3ea..49b330b 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3056,6 +3056,10 @@ def lines_rstrip(li, separators=None):
             yield (info, line)
         return
 
+    # in case separators is an iterator: we use it once for every line
+    if not isinstance(separators, (str, bytes)):
+        separators = tuple(separators)
+
     for info, line in li:
         rstripped = multistrip(line, separators, left=False, right=True)
         if rstripped != line:
@@ -3080,6 +3084,9 @@ def lines_strip(li, separators=None):
     Composable with all the lines_ modifier functions in the big.text module.
     """
     if separators is not None:
+        # in case separators is an iterator: we use it once for every line
+        if not isinstance(separators, (str, bytes)):
+            separators = tuple(separators)
 
         for info, line in li:
             leading = trailing = None
-- 
2.43.0


From 0fd0b4b6109a86b61fd3dbb35d3c18315606efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 32/72] fix: LineInfo.clip_trailing clipped the whole line when
 asked to clip nothing

---
 big/text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 49b330b..5975e3d 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2863,6 +2863,9 @@ class LineInfo:
             i = s
             s = None
             l = line
+        if not i:
+            # nothing to clip
+            return line
         line = line[:-i]
         if not line:
             # if you clip the entire line, we move the entire line into trailing (minus end)
@@ -3052,7 +3055,7 @@ def lines_rstrip(li, separators=None):
         for info, line in li:
             rstripped = line.rstrip()
             if rstripped != line:
-                line = info.clip_trailing(line, -len(rstripped))
+                line = info.clip_trailing(line, len(line) - len(rstripped))
             yield (info, line)
         return
 
@@ -3063,7 +3066,7 @@ def lines_rstrip(li, separators=None):
     for info, line in li:
         rstripped = multistrip(line, separators, left=False, right=True)
         if rstripped != line:
-            line = info.clip_trailing(line, -len(rstripped))
+            line = info.clip_trailing(line, len(line) - len(rstripped))
         yield (info, rstripped)
 
 
-- 
2.43.0


From 094e3cb9766d91e484be5820dcdb99a6ab54aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 33/72] fix: LineInfo.column_number was wrong after clipping
 tabs twice or clipping the rest of the line

---
 big/text.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/big/text.py b/big/text.py
index 5975e3d..31e6ed7 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2827,7 +2827,7 @@ class LineInfo:
             # (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
@@ -2836,10 +2836,11 @@ class LineInfo:
             return empty
         if s is None:
             s = l[:i]
+        # measure all of leading, tabs after previously clipped text
+        # are narrower than tabs at the beginning of the line
+        length = len(self.detab(self.leading))
         self.leading += s
-        detabbed = self.detab(s)
-        length = len(detabbed)
-        self.column_number += length
+        self.column_number += len(self.detab(self.leading)) - length
         return line
 
     def clip_trailing(self, line, s):
@@ -2871,7 +2872,7 @@ class LineInfo:
             # if you clip the entire line, we move the entire line into trailing (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
-- 
2.43.0


From e6cb2d0ab4214884f5d8f6e567d40bb1e39771a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 34/72] fix: LineInfo rejected re.Match objects for match

---
 big/text.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 31e6ed7..45baf84 100644
--- a/big/text.py
+++ b/big/text.py
@@ -43,15 +43,22 @@ try:
 except ImportError: # pragma: no cover
     re_Pattern = re._pattern_type
 
+re_Match = type(re.match('', ''))
+
 try:
     import regex
     regex_Pattern = regex.Pattern
+    regex_Match = type(regex.match('', ''))
     def isinstance_re_pattern(o):
         return isinstance(o, (re_Pattern, regex_Pattern))
+    def isinstance_re_match(o):
+        return isinstance(o, (re_Match, regex_Match))
 except ImportError: # pragma: no cover
     regex_Pattern = re_Pattern
     def isinstance_re_pattern(o):
         return isinstance(o, re_Pattern)
+    def isinstance_re_match(o):
+        return isinstance(o, re_Match)
 
 
 __all__ = []
@@ -2776,8 +2783,8 @@ class LineInfo:
         elif not isinstance(end, line_type):
             raise TypeError(f"end must be same type as line or None, not {end!r}")
 
-        if not ((match == None) or isinstance_re_pattern(match)):
-            raise TypeError("match must be None or re.Pattern")
+        if not ((match == None) or isinstance_re_match(match)):
+            raise TypeError("match must be None or re.Match")
 
         self.lines = lines
         self.line = line
-- 
2.43.0


From bbf214f5247d185a20a33970f09856ac3012a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 35/72] fix: lines_filter_line_comment_lines only accepted
 indexable comment markers

---
 big/text.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/big/text.py b/big/text.py
index 45baf84..ced857a 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3182,17 +3182,17 @@ def lines_filter_line_comment_lines(li, comment_markers):
     if not comment_markers:
         raise ValueError("illegal comment_markers")
 
-    comment_markers_is_bytes = isinstance(comment_markers, bytes) or isinstance(comment_markers[0], bytes)
+    # comment_markers can be any iterable, including a set or an iterator
+    comment_markers = tuple(_iterate_over_bytes(comment_markers))
+    if not comment_markers:
+        raise ValueError("illegal comment_markers")
+
+    comment_markers_is_bytes = isinstance(comment_markers[0], bytes)
     if comment_markers_is_bytes:
-        comment_markers = _iterate_over_bytes(comment_markers)
         skip_whitespace = b"\\s*"
     else:
         skip_whitespace = "\\s*"
 
-    # in case comment_markers is an iterator
-    # (for example, we just called _iterate_over_bytes on a bytes string)
-    comment_markers = tuple(comment_markers)
-
     if len(comment_markers) == 1:
         comment_marker = comment_markers[0]
         def match(s):
-- 
2.43.0


From 49cc99d26b82606692770d8c3d77f0f76e392495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 36/72] fix: lines_strip_line_comments only accepted indexable
 markers and quotes, and used backslash if escape was None

---
 big/text.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/big/text.py b/big/text.py
index ced857a..fdbafb3 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3440,13 +3440,11 @@ def lines_strip_line_comments(li, line_comment_markers, *,
     """
 
     # check line_comment_markers
+    # (line_comment_markers can be any iterable, including a set or an iterator)
+    if line_comment_markers:
+        line_comment_markers = tuple(_iterate_over_bytes(line_comment_markers))
     if not line_comment_markers:
         bad_value = True
-    elif isinstance(line_comment_markers, bytes):
-        bad_value = False
-        line_comment_markers = _iterate_over_bytes(line_comment_markers)
-        is_bytes = True
-        empty = b''
     else:
         is_bytes = isinstance(line_comment_markers[0], bytes)
         if is_bytes:
@@ -3458,13 +3456,19 @@ def lines_strip_line_comments(li, line_comment_markers, *,
     if bad_value:
         raise ValueError(f"line comment markers must be str, bytes, or an non-empty iterable of str or bytes, not {line_comment_markers!r}")
 
+    # quotes and multiline_quotes can also be any iterable,
+    # and we use them once for every line.
+    quotes = tuple(_iterate_over_bytes(quotes or ()))
+    multiline_quotes = tuple(_iterate_over_bytes(multiline_quotes or ()))
+
+    # if escape is false, there's no escape string
+    if not escape:
+        escape = empty
+
     # use split_quoted_string to validate quotes, multiline_quotes, and escape, if specified
     not_empty = quotes or multiline_quotes
     if not_empty:
-        if isinstance(not_empty, bytes):
-            test_text = b'x'
-        # if not_empty is not bytes, it's safe to index into
-        elif isinstance(not_empty[0], bytes):
+        if isinstance(not_empty[0], bytes):
             test_text = b'x'
         else:
             test_text = 'x'
-- 
2.43.0


From 93d9300c6e5e746816bcb764a3699028d7d2e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 37/72] fix: lines_sort accepted only None as a false key

---
 big/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index fdbafb3..a7f3109 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3297,7 +3297,7 @@ def lines_sort(li, *, key=None, reverse=False):
     Composable with all the lines_ modifier functions in the big.text module.
     """
     lines = list(li)
-    if key == None:
+    if not key:
         fn = lambda t: t[1]
     else:
         fn = lambda t: key(t)
-- 
2.43.0


From b8485d93287f7ad13010a5a74b15eb10c73edc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 38/72] fix: wrap_words ignored two_spaces=False

---
 big/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index a7f3109..fd3d7c8 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3685,13 +3685,13 @@ def wrap_words(words, margin=79, *, two_spaces=True):
             if isinstance(word, bytes):
                 empty = lastword = b''
                 sentence_ending_punctuation = (b'.', b'?', b'!')
-                two_spaces = b'  '
+                double_space = b'  '
                 one_space = b' '
                 newline = b'\n'
             else:
                 empty = lastword = ''
                 sentence_ending_punctuation = ('.', '?', '!')
-                two_spaces = '  '
+                double_space = '  '
                 one_space = ' '
                 newline = '\n'
 
@@ -3704,7 +3704,7 @@ def wrap_words(words, margin=79, *, two_spaces=True):
         l = len(word)
 
         if two_spaces and lastword.endswith(sentence_ending_punctuation):
-            space = two_spaces
+            space = double_space
             len_space = 2
         else:
             space = one_space
-- 
2.43.0


From 82cc931231da5a60c07df4d85fddcd1f90ce143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 39/72] fix: split_text_with_code lost a final line of code not
 ended by a newline

---
 big/text.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/text.py b/big/text.py
index fd3d7c8..706bd0b 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3881,6 +3881,12 @@ class _column_wrapper_splitter:
             self.leading.clear()
             self.word.clear()
 
+        # flush the current line of code, if any.
+        # (if we're not in a code line, self.code only contains line breaks.)
+        if self.code and (self.state == self.state_in_code_line):
+            self.emit(self.empty.join(self.code))
+            self.code.clear()
+
     def state_paragraph_start(self, leading, word):
         """
         Initial state.  Also the state we return to
-- 
2.43.0


From 05ec0bfd5c5b5c568b8ef9bdceb5479b854d4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 40/72] fix: split_text_with_code failed on text with a second
 code paragraph right after text

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index 706bd0b..aa8f122 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3943,6 +3943,8 @@ class _column_wrapper_splitter:
 
         if self.previous_paragraph == _code_paragraph:
             self.paragraph_break()
+            # the line breaks after the code are part of the paragraph break.
+            self.code.clear()
         self.state = self.state_text_line_start
         self.state(leading, word)
 
-- 
2.43.0


From b31efd47847ba815b30cebddf42460c946cfb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 41/72] fix: merge_columns let trailing whitespace of a line
 push later columns out of place

---
 big/text.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index aa8f122..8df2f67 100644
--- a/big/text.py
+++ b/big/text.py
@@ -4199,8 +4199,6 @@ def merge_columns(*columns, column_separator=None,
         if in_overflow:
             overflow_end = line_number + overflow_after
             add_overflow()
-            for i in range(overflow_after):
-                rstripped_lines.append(empty)
 
         if delay_all and overflows:
             overflows.clear()
@@ -4214,7 +4212,7 @@ def merge_columns(*columns, column_separator=None,
 
         in_overflow = False
         next_overflow()
-        for line_number, line in enumerate(lines):
+        for line_number, line in enumerate(rstripped_lines):
             if line_number > overflow_end:
                 in_overflow = False
                 next_overflow()
-- 
2.43.0


From 5974a26f24acde8d805dfbd1ac15eff30824ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 42/72] fix: merge_columns ignored min_width, every column was
 max_width wide

---
 big/text.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 8df2f67..3ac8834 100644
--- a/big/text.py
+++ b/big/text.py
@@ -4159,8 +4159,6 @@ def merge_columns(*columns, column_separator=None,
         operator.index(min_width)
         operator.index(max_width)
 
-        empty_columns.append(max_width * space)
-
         if isinstance(s, (str, bytes)):
             lines = s.rstrip().split(newline)
         else:
@@ -4200,6 +4198,11 @@ def merge_columns(*columns, column_separator=None,
             overflow_end = line_number + overflow_after
             add_overflow()
 
+        # the column is as wide as its longest line,
+        # but never narrower than min_width or wider than max_width
+        width = min(max(max_line_length, min_width), max_width)
+        empty_columns.append(width * space)
+
         if delay_all and overflows:
             overflows.clear()
             overflows.append((0, overflow_end))
@@ -4219,7 +4222,7 @@ def merge_columns(*columns, column_separator=None,
             if line_number >= overflow_start:
                 in_overflow = True
             if not in_overflow:
-                line = line.ljust(max_width)
+                line = line.ljust(width)
             padded_lines.append((line, in_overflow))
 
         columns.append(padded_lines)
-- 
2.43.0


From 290bca5bc792129f2d4474eae6d6d831ee9cfee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 43/72] fix: encode_strings handles namedtuples and
 defaultdicts

They are subclasses of tuple and dict, which are documented as supported,
but their constructors don't take a single iterable.
---
 big/text.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 3ac8834..b5a63ac 100644
--- a/big/text.py
+++ b/big/text.py
@@ -24,6 +24,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR
 THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 """
 
+import collections
 import enum
 import functools
 import heapq
@@ -89,13 +90,18 @@ def _recursive_encode_strings(o, encoding):
 
     type_o = type(o)
     if isinstance(o, dict):
-        return type_o({
+        encoded = {
             _recursive_encode_strings(k, encoding):
              _recursive_encode_strings(v, encoding)
              for k, v in o.items()
-             })
+             }
+        if isinstance(o, collections.defaultdict):
+            return type_o(o.default_factory, encoded)
+        return type_o(encoded)
     if isinstance(o, (list, tuple)):
-        return type_o(_recursive_encode_strings(e, encoding) for e in o)
+        # namedtuple classes take their fields as separate arguments
+        constructor = getattr(type_o, '_make', type_o)
+        return constructor(_recursive_encode_strings(e, encoding) for e in o)
     if isinstance(o, set):
         return type_o({
              _recursive_encode_strings(v, encoding)
-- 
2.43.0


From b885f319957629d2936ffa2adeac156f05eb345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 44/72] fix: a new dependency on a node already done does not
 block its successor

The successor waited forever for a node that had already been marked done.
---
 big/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 8b1dc7d..d8f5df0 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -282,6 +282,11 @@ class TopologicalSorter:
             # x = not ok, view is incoherent.
             # * = if 1 was previously waiting in "ready", it's removed.
 
+            if node in self._done:
+                # "node" is C.  it's already done, so successor
+                # isn't waiting on it, whatever state it's in.
+                return
+
             conflict_1 = not (node in self._done)      # "node" is not C, so it's A or B
             conflict_2a = (successor in self._yielded) # "successor" is 2
             conflict_2b = (successor in self._done)    # "successor" is 3
-- 
2.43.0


From de7f14dc75f09dbd0c7abee8ef119382a1976f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 45/72] fix: View.done marks each node done exactly once

Naming a node twice in one call, or retrying after a call that raised
partway, counted the node twice for its successors, which then became
ready before their other predecessors were done.
---
 big/graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index d8f5df0..b78e0f6 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -215,9 +215,8 @@ class TopologicalSorter:
                     raise ValueError(f"node {node!r} was not passed out")
                 # print("CALL _mark_node_done", node, self.graph.nodes[node])
                 self._mark_node_done(node, self.graph.nodes[node][1])
-            nodes = set(nodes)
-            self._done |= nodes
-            self._yielded -= nodes
+                self._done.add(node)
+                self._yielded.remove(node)
 
         #
         # These functions are internal only.
-- 
2.43.0


From 868b037277441b66933f7790140750d67d39eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 46/72] fix: TopologicalSorter.copy registers the copied views
 with the copy

They were registered with the original, so changing either graph afterwards
changed the other's views and not its own.
---
 big/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index b78e0f6..c6c0cd5 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -569,10 +569,11 @@ class TopologicalSorter:
             p, s = p_s
             clone.nodes[node] = [p, s.copy()]
 
-        clone._default_view = self._default_view.copy()
-        clone._default_view.graph = clone
-        clone._stock_view = self._stock_view.copy()
-        clone._stock_view.graph = clone
+        # replace the views the constructor made with copies of ours,
+        # registered with the clone and not with us.
+        clone.views.clear()
+        clone._default_view = clone.View(clone, original=self._default_view)
+        clone._stock_view = clone.View(clone, original=self._stock_view)
 
         return clone
 
-- 
2.43.0


From a10791e2c1b1c0b90ac34c0e979fbbbc6ba002c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 47/72] fix: a copy of a TopologicalSorter is checked for
 cycles too

---
 big/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/graph.py b/big/graph.py
index c6c0cd5..8dde32d 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -568,6 +568,7 @@ class TopologicalSorter:
         for node, p_s in self.nodes.items():
             p, s = p_s
             clone.nodes[node] = [p, s.copy()]
+        clone.dirty = self.dirty
 
         # replace the views the constructor made with copies of ours,
         # registered with the clone and not with us.
-- 
2.43.0


From a195da8de4a33bf99ff99d924c0a418fbdff384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 48/72] fix: TopologicalSorter.cycle explores each node only
 once

Nodes after a cycle were explored once for every path to them, which is
exponential in the size of the graph.
---
 big/graph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 8dde32d..3c421ad 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -626,6 +626,7 @@ class TopologicalSorter:
         # but this is Python and we could blow our stack.
         iterators = [iter(nodes)]
         seen = set()
+        dead_ends = set()
         cycle = []
 
         while iterators:
@@ -642,6 +643,10 @@ class TopologicalSorter:
                     index = cycle.index(node)
                     self.dirty = True
                     return tuple(cycle[index:])
+                if node in dead_ends:
+                    # we already explored everything after this node
+                    # and didn't find a cycle.
+                    continue
                 # descend
                 seen.add(node)
                 cycle.append(node)
@@ -650,6 +655,7 @@ class TopologicalSorter:
                 # ascend
                 node = cycle.pop()
                 seen.remove(node)
+                dead_ends.add(node)
                 iterators.pop()
 
     def check_for_cycles(self):
-- 
2.43.0


From d6d34fb86314937d4aa77f682c412cbaf95f149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 49/72] fix: Scheduler works with time classes that only define
 <= and ==

These are the comparisons the documentation requires of a time class;
comparing two Events used < and > instead and raised TypeError.
---
 big/scheduler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index 7bf6617..b999f73 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -198,10 +198,9 @@ class Event:
         self.sequence = sequence
 
     def __lt__(self, other):
-        if self.time < other.time:
-            return True
-        if self.time > other.time:
-            return False
+        # time objects are only required to support <= and ==
+        if not (self.time == other.time):
+            return self.time <= other.time
 
         if self.priority < other.priority:
             return True
-- 
2.43.0


From 67d66174b0c9ad56f974d730ba3fa6a2ec2985c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 50/72] fix: Scheduler.schedule does not modify the time object
 passed in

Time classes that implement += in place had the current time added to the
caller's interval, so scheduling with it again was late.
---
 big/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index b999f73..88458dc 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -282,7 +282,8 @@ class Scheduler:
         """
         with self.regulator.lock:
             if not absolute:
-                time += self.regulator.now()
+                # (not +=, which might modify the caller's object)
+                time = time + self.regulator.now()
             self.event_id_counter += 1
             event = Event(self, o, time, priority, self.event_id_counter)
             self.heap.append(event)
-- 
2.43.0


From 672b7fed76becda8ed8576d9cd46f37b274ccd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 51/72] fix: ThreadSafeRegulator doesn't lose a wake just
 before sleep

Scheduler releases the lock before it sleeps.  An event scheduled (or
cancelled) by another thread in between woke nobody, and the sleeping
thread didn't notice it until its whole interval had passed.
---
 big/scheduler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index 88458dc..1385eb9 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -173,11 +173,20 @@ class ThreadSafeRegulator(Regulator):
         return time.monotonic()
 
     def wake(self):
-        self.event.set()
-        self.event.clear()
+        event = self.event
+        self.event = threading.Event()
+        event.set()
 
-    def sleep(self, interval):
-        self.event.wait(interval)
+    @property
+    def sleep(self):
+        # Scheduler fetches this method while holding the lock,
+        # and calls it after releasing the lock.  wake replaces
+        # the event, so we bind the current one now; a wake between
+        # the two aborts the sleep, instead of being lost.
+        event = self.event
+        def sleep(interval):
+            event.wait(interval)
+        return sleep
 
 
 DEFAULT_PRIORITY = 100
-- 
2.43.0


From b86c2e84704879f3d3661b3ff5a5ca5dcdf5fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 52/72] fix: StateManager calls the observers that are in the
 list now

The cached copy was only renewed when the list compared unequal to it, so
replacing an observer with a different object that compares equal kept
calling the old one.
---
 big/state.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/big/state.py b/big/state.py
index 6bed7dc..cfbc0c3 100644
--- a/big/state.py
+++ b/big/state.py
@@ -232,10 +232,8 @@ class StateManager:
             if on_exit is not None:
                 on_exit()
         if self.observers:
-            if self.observers != self._observers_copy:
-                self._observers_copy = list(self.observers)
-                self._observers_tuple = tuple(self.observers)
-            for o in self._observers_tuple:
+            # iterate over a copy, in case an observer modifies the list.
+            for o in tuple(self.observers):
                 o(self)
 
         self.__state = state
@@ -277,8 +275,6 @@ class StateManager:
         self.on_exit = on_exit
 
         self.observers = []
-        self._observers_copy = []
-        self._observers_tuple = ()
         self.state = state
 
     def __repr__(self):
-- 
2.43.0


From b4f5a7af870141675b80e398bfb80569efa2af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 53/72] fix: a transition that raises does not leave the
 StateManager transitioning

If on_exit or an observer raised, next was never set back to None, and
every later transition raised TransitionError.
---
 big/state.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/big/state.py b/big/state.py
index cfbc0c3..353356c 100644
--- a/big/state.py
+++ b/big/state.py
@@ -227,17 +227,21 @@ class StateManager:
         self.__next = state
         # as of this moment we are "transitioning" to a new state.
 
-        if self.on_exit:
-            on_exit = getattr(self.__state, self.on_exit, None)
-            if on_exit is not None:
-                on_exit()
-        if self.observers:
-            # iterate over a copy, in case an observer modifies the list.
-            for o in tuple(self.observers):
-                o(self)
-
-        self.__state = state
-        self.__next = None
+        try:
+            if self.on_exit:
+                on_exit = getattr(self.__state, self.on_exit, None)
+                if on_exit is not None:
+                    on_exit()
+            if self.observers:
+                # iterate over a copy, in case an observer modifies the list.
+                for o in tuple(self.observers):
+                    o(self)
+
+            self.__state = state
+        finally:
+            # if on_exit or an observer raised an exception,
+            # the transition has failed, and it's over.
+            self.__next = None
         # as of this moment we are "in" our new state, the transition is over.
         # (it's explicitly permitted to start a new state transition from inside enter().)
 
-- 
2.43.0


From 8cd6c1a4bd2d0f940ac8a5f90dcd0917897e4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 54/72] fix: Log.print prints the right fraction for times of a
 second or more

---
 big/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/log.py b/big/log.py
index ef96c9c..fb57744 100644
--- a/big/log.py
+++ b/big/log.py
@@ -179,7 +179,7 @@ class Log:
         def format_time(t):
             assert t is not None
             seconds = t // 1_000_000_000
-            nanoseconds = f"{t - seconds:>09}"
+            nanoseconds = f"{t % 1_000_000_000:>09}"
             nanoseconds = nanoseconds[:fractional_width]
             return f"{seconds:0{seconds_width}}.{nanoseconds}"
 
-- 
2.43.0


From aa337f8c8fad78447ca0d3516c225ea1419e48ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 55/72] fix: deprecated split_quoted_strings accepts a string
 ending with an opening quote

---
 big/deprecated.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 84ec58f..2d67ed6 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -153,10 +153,11 @@ def split_quoted_strings(s, quotes=None, *, triple_quotes=True, backslash=None):
                 in_quote = c
                 continue
             # scan for triple quotes.
-            c2 = next(i)
+            c2 = i.next(None)
             if c2 != c:
                 # only a single quote mark. flush unquoted string, start quoted string.
-                i.push(c2)
+                if c2 is not None:
+                    i.push(c2)
                 if text:
                     yield False, empty_join(text)
                     text.clear()
-- 
2.43.0


From f5eab56b2de1c9b45f3261b2d7b3737550cb582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 56/72] fix: deprecated parse_delimiters raises ValueError, not
 TypeError, for bad bytes

---
 big/deprecated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 2d67ed6..23458f1 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -367,7 +367,7 @@ def parse_delimiters(s, delimiters, backslash_character, closers, empty):
     if len(stack):
         stack.pop(0)
         stack.append(d)
-        raise ValueError("s does not close all opened delimiters, needs " + " ".join(d.close for d in reversed(stack)))
+        raise ValueError("s does not close all opened delimiters, needs " + " ".join(repr(d.close) for d in reversed(stack)))
 
     if text:
         yield flush(empty, empty)
@@ -448,7 +448,7 @@ def parse_delimiters(s, delimiters=None):
     disallowed = {disallowed_delimiters}
     illegal_delimiters = disallowed & delimiter_characters
     if illegal_delimiters:
-        raise ValueError("illegal delimiters used: " + "".join(illegal_delimiters))
+        raise ValueError("illegal delimiters used: " + " ".join(repr(d) for d in illegal_delimiters))
 
     # closers is a set of closing delimiters *only*.
     # if open and close delimiters are the same (e.g. quote marks)
@@ -464,7 +464,7 @@ def parse_delimiters(s, delimiters=None):
             closers.add(d.close)
 
     if repeated:
-        raise ValueError("these opening delimiters were used multiple times: " + " ".join(repeated))
+        raise ValueError("these opening delimiters were used multiple times: " + " ".join(repr(d) for d in repeated))
 
     return _parse_delimiters(s, delimiters, backslash_character, closers, empty)
 
-- 
2.43.0


From 9cb6ac3cadb1d6dfd58ac078255315f65bf3d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 57/72] fix: deprecated lines_strip_comments recognizes quotes
 in bytes lines

---
 big/deprecated.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/big/deprecated.py b/big/deprecated.py
index 23458f1..44f3ab1 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -523,6 +523,11 @@ def lines_strip_comments(li, comment_separators, *, quotes=('"', "'"), backslash
 
     if comment_separators_is_bytes:
         empty = b''
+        # the default values for these are str
+        if quotes == ('"', "'"):
+            quotes = (b'"', b"'")
+        if backslash == '\\':
+            backslash = b'\\'
     else:
         empty = ''
     empty_join = empty.join
-- 
2.43.0


From 538ebfea847898b92defafd47680ff5b1dc22ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 58/72] fix: bound inner class inherits from bound bases only
 if they're outer's own

---
 big/boundinnerclass.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 3540750..4ec3d55 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -62,6 +62,17 @@ __all__ = ["BoundInnerClass", "UnboundInnerClass"]
 
 import weakref
 
+def _find_worker(outer, name):
+    """
+    Returns the object named name in outer's class, *without*
+    binding it (calling its __get__), or None if there isn't one.
+    """
+    for cls in type(outer).__mro__:
+        if name in cls.__dict__:
+            return cls.__dict__[name]
+    return None
+
+
 class _Worker(object):
     def __init__(self, cls):
         self.cls = cls
@@ -106,22 +117,15 @@ class _Worker(object):
             # this is harmless but helps preserve the original MRO.
             inherit_from = base
 
-            # If we inherit from a BoundInnerClass from another outer class,
-            # we *might* have the same name as a legitimate base class.
-            # But if we get that attribute, we'll call __get__ recursively...
-            # forever.
-            #
-            # If the name is the same as our own name, there's no way it's
-            # a bound inner class we need to inherit from, so just skip it.
-            if base.__name__ != name:
-                bound_inner_base = getattr(outer, base.__name__, None)
-                if bound_inner_base:
-                    bases = getattr(bound_inner_base, "__bases__", (None,))
-                    # The unbound class is always the first base of
-                    # the bound inner class.
-                    if bases[0] == base:
-                        inherit_from = bound_inner_base
-                        multiply_inherit = True
+            # Only inherit from a bound version of base if outer has a
+            # bound inner class for that exact class.  (If we inherit
+            # from a BoundInnerClass from another outer class, or from
+            # an unrelated class, outer might have an attribute with the
+            # same name.)
+            worker = _find_worker(outer, base.__name__)
+            if isinstance(worker, _Worker) and (worker.cls is base):
+                inherit_from = getattr(outer, base.__name__)
+                multiply_inherit = True
             wrapper_bases.append(inherit_from)
 
         Wrapper = self._wrap(outer, wrapper_bases[0])
-- 
2.43.0


From d018a09342957161972dbba35058537657c3b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 59/72] fix: aliases and super() always return the same bound
 inner class

---
 big/boundinnerclass.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 4ec3d55..4a9d650 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -104,6 +104,13 @@ class _Worker(object):
 
         name = self.cls.__name__
 
+        # We can be called even though we've already cached our bound
+        # class, e.g. if we're accessed using an alias, or using super().
+        # Always return the same bound class.
+        cached = outer.__dict__.get(name)
+        if getattr(cached, "__bases__", (None,))[0] is self.cls:
+            return cached
+
         wrapper_bases = [self.cls]
 
         # Iterate over cls's bases, and look in outer,
@@ -139,7 +146,10 @@ class _Worker(object):
         # Cache the bound instance in outer's dict.
         # This also means that future requests for us won't call our
         # __get__ again, it'll automatically use the cached copy.
-        outer.__dict__[name] = Wrapper
+        # (Except if name isn't us, in which case we were accessed
+        # using super(), and the class overriding us has that name.)
+        if _find_worker(outer, name) is self:
+            outer.__dict__[name] = Wrapper
         return Wrapper
 
 
-- 
2.43.0


From a55cfa29e32f15ec6c8ea3a40bd8923715b21a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 60/72] fix: bound inner class without __init__ doesn't skip
 constructors in super() chain

---
 big/boundinnerclass.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 4a9d650..28a550b 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -178,10 +178,21 @@ class BoundInnerClass(_Worker):
         wrapper_self = self
         assert outer is not None
         outer_weakref = weakref.ref(outer)
+
+        # If cls doesn't define __init__, and inherits it from
+        # another bound inner class of outer, that class's bound
+        # version will pass in outer.  Just let super() find it.
+        definer = next(c for c in self.cls.__mro__ if '__init__' in c.__dict__)
+        inherits_init = False
+        if definer is not self.cls:
+            worker = _find_worker(outer, definer.__name__)
+            inherits_init = isinstance(worker, BoundInnerClass) and (worker.cls is definer)
+
         class Wrapper(base):
-            def __init__(self, *bic_args, **bic_kwargs):
-                wrapper_self.cls.__init__(self,
-                                          outer_weakref(), *bic_args, **bic_kwargs)
+            if not inherits_init:
+                def __init__(self, *bic_args, **bic_kwargs):
+                    wrapper_self.cls.__init__(self,
+                                              outer_weakref(), *bic_args, **bic_kwargs)
 
             # give the bound inner class a nicer repr
             # (but only if it doesn't already have a custom repr)
-- 
2.43.0


From 3ff89ece2b46f0f7c3a7e5918ec85b92feb7111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 61/72] fix: lines accepts an iterable of instances of
 subclasses of str or bytes

---
 big/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index b5a63ac..dbcd3ba 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2769,7 +2769,7 @@ class LineInfo:
         if not isinstance(column_number, int):
             raise TypeError(f"column_number must be int, not {column_number!r}")
 
-        line_type = type(line)
+        line_type = bytes if is_bytes else str
 
         if not isinstance(indent, int):
             raise TypeError("indent must be int")
-- 
2.43.0


From 41f782eb02abded69025eea0e47632a5725f8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 62/72] fix: Heap.extend leaves the heap intact when its
 iterable raises

---
 big/heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index f3dc120..429f37f 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -76,7 +76,7 @@ class Heap:
         return copy
 
     def extend(self, i):
-        self._queue.extend(i)
+        self._queue.extend(list(i))
         heapify(self._queue)
         self._version += 1
 
-- 
2.43.0


From 8cebf7a00eec57047caf5a7eece13e234c7d7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 63/72] fix: TopologicalSorter.add changes nothing when a
 dependency isn't hashable

---
 big/graph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 3c421ad..38015fc 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -475,6 +475,12 @@ class TopologicalSorter:
         """
         # print(f"{node:3} depends on {dependencies!r}")
 
+        # nodes must be hashable.  if one isn't, raise TypeError now,
+        # before we change anything; otherwise we'd leave the graph
+        # with nodes the views were never told about.
+        for d in dependencies:
+            hash(d)
+
         new_nodes = []
         new_successors = []
 
-- 
2.43.0


From 2e0da2a4826d31771f19e5487a8fb70e140ca490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 64/72] fix: Version normalizes numeric elements of local, so
 equal versions print alike

---
 big/version.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index 4a90e79..9e98235 100644
--- a/big/version.py
+++ b/big/version.py
@@ -261,7 +261,8 @@ class Version:
         if local:
             # if local is true, it's an iterable of strings.
             # local versions are case-insensitive and normalize to lower case.
-            local = tuple(element.lower() for element in local)
+            # numeric elements compare as numbers, so strip their leading zeros.
+            local = tuple(str(int(element)) if element.isdigit() else element.lower() for element in local)
             # convert elements to ints where possible, leave as strings otherwise.
             compare_local = tuple((2, int(element)) if element.isdigit() else (1, element) for element in local)
         else:
-- 
2.43.0


From f5089738bdb02ae50e27de68e2f77acd3742d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:57 +0000
Subject: [PATCH 65/72] fix: Version refuses non-ASCII letters that only case
 folding makes look like ASCII ones

---
 big/version.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/version.py b/big/version.py
index 9e98235..722cc29 100644
--- a/big/version.py
+++ b/big/version.py
@@ -87,7 +87,9 @@ VERSION_PATTERN = r"^\s*" + r"""
     (?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?       # local version
 """ + r"\s*$"
 
-_re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE).match
+# re.ASCII, because otherwise re.IGNORECASE also matches non-ASCII
+# letters, e.g. U+017F LATIN SMALL LETTER LONG S for "s".
+_re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE | re.ASCII).match
 
 del VERSION_PATTERN
 
@@ -175,7 +177,7 @@ class Version:
             if not isinstance(s, str):
                 raise ValueError("you must specify either a version string or explicit keyword arguments")
 
-            match = _re_parse_version(s)
+            match = _re_parse_version(s.strip())
             if not match:
                 raise ValueError(f"invalid version initializer {s!r}") from None
 
-- 
2.43.0


From 407d9e8a010324fcc7d9577e4c2b3293beae04ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:03 +0000
Subject: [PATCH 66/72] fix: fgrep's case-insensitive search takes both small
 sigmas for the same letter

---
 big/file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/big/file.py b/big/file.py
index 3758e06..0d5576a 100644
--- a/big/file.py
+++ b/big/file.py
@@ -105,6 +105,11 @@ def fgrep(path, text, *, encoding=None, enumerate=False, case_insensitive=False)
         lower_contents = contents.lower()
         lower_split = lower_contents.split(separator)
         text = text.lower()
+        if mode == 'rt':
+            # str.lower turns a capital sigma into one of two letters,
+            # depending on the text around it.  they're the same letter.
+            lower_split = [line.replace('\u03c2', '\u03c3') for line in lower_split]
+            text = text.replace('\u03c2', '\u03c3')
         if enumerate:
             return [(line_number, line) for line_number, (line, lower_line) in builtins.enumerate(zip(split, lower_split), 1) if text in lower_line]
         return [line for line, lower_line in zip(split, lower_split) if text in lower_line]
-- 
2.43.0


From 81bfde45da6ba444fcf74e73811aa45d62397b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:25 +0000
Subject: [PATCH 67/72] fix: split_quoted_strings failed if quotes or
 multiline_quotes was an iterator, or had no length

---
 big/text.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index dbcd3ba..251ddba 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1952,8 +1952,8 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if quotes in (_sqs_quotes_str, None):
             quotes = _sqs_quotes_bytes
         else:
-            if isinstance(quotes, bytes):
-                quotes = tuple(_iterate_over_bytes(quotes))
+            # quotes can be any iterable, and we use it more than once
+            quotes = tuple(_iterate_over_bytes(quotes))
             for q in quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in quotes must match s (str or bytes), not {q!r}")
@@ -1962,8 +1962,7 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if escape in (_sqs_escape_str, None):
             escape = _sqs_escape_bytes
         if multiline_quotes:
-            if isinstance(multiline_quotes, bytes):
-                multiline_quotes = tuple(_iterate_over_bytes(multiline_quotes))
+            multiline_quotes = tuple(_iterate_over_bytes(multiline_quotes))
             for q in multiline_quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in multiline_quotes must match s (str or bytes), not {q!r}")
@@ -1978,6 +1977,7 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if quotes in (_sqs_quotes_bytes, None):
             quotes = _sqs_quotes_str
         else:
+            quotes = tuple(_iterate_over_bytes(quotes))
             for q in quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in quotes must match s (str or bytes), not {q!r}")
@@ -1986,6 +1986,7 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if escape in (_sqs_escape_bytes, None):
             escape = _sqs_escape_str
         if multiline_quotes:
+            multiline_quotes = tuple(_iterate_over_bytes(multiline_quotes))
             for q in multiline_quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in multiline_quotes must match s (str or bytes), not {q!r}")
-- 
2.43.0


From 47728808a641820c288abae49eb5b8d731f823d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:29 +0000
Subject: [PATCH 68/72] fix: multisplit, multistrip and gently_title accepted
 an empty iterator as separators or quotes

---
 big/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 251ddba..6d117fb 100644
--- a/big/text.py
+++ b/big/text.py
@@ -831,6 +831,8 @@ def multistrip(s, separators, left=True, right=True):
             if not o:
                 raise ValueError("separators must be an iterable of non-empty objects the same type as s")
             s2.append(o)
+        if not s2:
+            raise ValueError("separators must be an iterable of non-empty objects the same type as s")
         separators = tuple(s2)
 
     # deliberately do this *after* checking types,
@@ -1154,6 +1156,8 @@ def multisplit(s, separators=None, *,
             raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
         # separators might be an iterator, only iterate over it once
         separators = tuple(separators)
+        if not separators:
+            raise ValueError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
         for o in separators:
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
@@ -1582,7 +1586,7 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
             if not o:
                 raise ValueError("apostrophes must be an iterable of non-empty objects the same type as s, or None")
             cast_apostrophes.append(o)
-        if not apostrophes:
+        if not cast_apostrophes:
             raise ValueError("apostrophes must be an iterable of non-empty objects the same type as s")
         _is_apostrophe = frozenset(cast_apostrophes).__contains__
 
@@ -1596,7 +1600,7 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
             if not o:
                 raise ValueError("double_quotes must be an iterable of non-empty objects the same type as s, or None")
             cast_double_quotes.append(o)
-        if not double_quotes:
+        if not cast_double_quotes:
             raise ValueError("double_quotes must be an iterable of non-empty objects the same type as s")
         _is_double_quote = frozenset(cast_double_quotes).__contains__
 
-- 
2.43.0


From 6be7755689b2f73cd3bc6e4ce383097d3ddbb5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:02 +0000
Subject: [PATCH 69/72] fix: normalize_whitespace accepted an empty string as
 separators if s was empty

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index 6d117fb..4ed0dc0 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1694,6 +1694,8 @@ def normalize_whitespace(s, separators=None, replacement=None):
             # iterate over it, which... yields integers! oops!
             separators = _iterate_over_bytes(separators)
         separators = tuple(separators)
+        if not separators:
+            raise ValueError("separators must be an iterable of non-empty objects the same type as s, or None")
     else:
         cast_separators = []
         for o in separators:
-- 
2.43.0


From 9c5fdef5076f387c959604e9ef927a4f406c3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:46 +0000
Subject: [PATCH 70/72] fix: Heap ignored the objects of an initial iterable
 that is false

---
 big/heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index 429f37f..d8f1feb 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -50,7 +50,7 @@ class Heap:
         * Use Heap[0] to peek at the first value on the heap.
     """
     def __init__(self, i=None):
-        if not i:
+        if i is None:
             self._queue = []
         else:
             self._queue = list(i)
-- 
2.43.0


From 055acde8244c1a9ee33dc388926c072e85588028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:51 +0000
Subject: [PATCH 71/72] fix: Log ignored a clock or print function that is
 false

---
 big/log.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big/log.py b/big/log.py
index fb57744..4cbf568 100644
--- a/big/log.py
+++ b/big/log.py
@@ -83,7 +83,8 @@ class Log:
     # randomly in the last... seven? digits.  You'll go blind!)
 
     def __init__(self, clock=None):
-        clock = clock or default_clock
+        if clock is None:
+            clock = default_clock
         self.clock = clock
         self.reset()
 
@@ -170,7 +171,7 @@ class Log:
         seconds_width is how wide to make the seconds column, default 2.
         fractional_width is how wide to make the fractional column, default 9.
         """
-        if not print:
+        if print is None:
             print = builtins.print
 
         indent = " " * indent
-- 
2.43.0


From 9cb61b25775cbe71f7f9ef47ac13098b5fd9458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:14 +0000
Subject: [PATCH 72/72] fix: lines_strip_indent failed an assertion on tabs
 when tab_width is 0

---
 big/text.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 4ed0dc0..ef6b787 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3576,7 +3576,6 @@ def lines_strip_indent(li):
         if column_number == info.lines.column_number:
             # this line doesn't start with whitespace; text is at column 0.
             # outdent to zero.
-            assert not info.leading
             indent = 0
             leadings.clear()
             new_indent = False
-- 
2.43.0

