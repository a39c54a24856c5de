From ca24250a35fbc2aa87c3f1721f353da58744629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 01/24] fix: record hits and times of a frame first seen as an
 absent caller

RecordingStatistics.ensure_child() returned the VoidRecordingStatistics which
was made for an ancestor, so every later hit and time of that function at that
call path was silently thrown away by the void statistics.
---
 profiling/stats.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 525c513..bbdc34b 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -250,11 +250,19 @@ class RecordingStatistics(Statistics):
         self._children.pop(code, None)
 
     def ensure_child(self, code, adding_stat_class=None):
+        stat_class = adding_stat_class or type(self)
         stats = self._children.get(code)
         if stats is None:
-            stat_class = adding_stat_class or type(self)
             stats = stat_class(code)
             self.add_child(code, stats)
+        elif (isinstance(stats, VoidRecordingStatistics) and
+              not issubclass(stat_class, VoidRecordingStatistics)):
+            # the absent frame appears at last.  void statistics cannot record
+            # anything so replace it.
+            void_stats, stats = stats, stat_class(code)
+            stats.deep_time = void_stats.deep_time
+            stats._children = void_stats._children
+            self.add_child(code, stats)
         return stats
 
     def clear(self):
-- 
2.43.0


From 9feed7da3640cdcbd9f4b0a30493fb61bedf3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 02/24] fix: don't charge the handling of a return event to the
 returned function

The overhead of the return event itself (time2 - time1) was already added to
self.overhead but the time was taken at time1, so each call lost the time the
profiler spent on walking the stack for its return event.
---
 profiling/tracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 2a1870b..cb108fe 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -102,7 +102,7 @@ class TracingProfiler(Profiler):
             time = time2 - self.overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time1 - self.overhead
+            time = time2 - self.overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
         self.overhead += time3 - time2
-- 
2.43.0


From 8159ebc22696343093664f1ffbf7603a71ca5631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 03/24] fix: never report a negative CPU time from the tracing
 profiler

The overhead is summed over all threads or measured by another clock, so it can
be larger than the CPU time which has passed.
---
 profiling/tracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index cb108fe..9dad1f2 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -126,7 +126,7 @@ class TracingProfiler(Profiler):
     def result(self):
         base = super(TracingProfiler, self)
         frozen_stats, cpu_time, wall_time = base.result()
-        return (frozen_stats, cpu_time - self.overhead, wall_time)
+        return (frozen_stats, max(0, cpu_time - self.overhead), wall_time)
 
     def run(self):
         if sys.getprofile() is not None:
-- 
2.43.0


From 662602faf1467a35bf5b1ba29dc871041933dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 04/24] fix: sort statistics without a name or module on Python
 3

None cannot be compared with a string, so sorting by function failed as soon as
a module-level frame or a code of an unknown module was among the statistics.
---
 profiling/sortkeys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 019ba89..124f7fb 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -30,13 +30,13 @@ class SortKey(object):
 
 
 #: Sorting by name in ascending order.
-by_name = SortKey(lambda stat: stat.name)
+by_name = SortKey(lambda stat: stat.name or '')
 
 #: Sorting by module in ascending order.
-by_module = SortKey(lambda stat: stat.module)
+by_module = SortKey(lambda stat: stat.module or '')
 
 #: Sorting by module and name in ascending order.
-by_function = SortKey(lambda stat: (stat.module, stat.name))
+by_function = SortKey(lambda stat: (stat.module or '', stat.name or ''))
 
 #: Sorting by number of inclusive hits in descending order.
 by_deep_hits = SortKey(lambda stat: -stat.deep_hits)
-- 
2.43.0


From 12eec3caf0cb4ead1e9fff190720c2f20d3fd29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 05/24] fix: invert sort keys which are not a number

~by_own_time, ~by_own_time_per_call, ~by_function, ~by_name and ~by_module
raised TypeError at sorting because tuples and strings cannot be negated.
---
 profiling/sortkeys.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 124f7fb..087f605 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -15,6 +15,18 @@ __all__ = ['by_name', 'by_module', 'by_deep_hits', 'by_own_hits',
            'by_own_time_per_call']
 
 
+class reversed_key(object):
+    """Compares in the opposite order of the wrapped key."""
+
+    __slots__ = ('key',)
+
+    def __init__(self, key):
+        self.key = key
+
+    def __lt__(self, other):
+        return other.key < self.key
+
+
 class SortKey(object):
 
     def __init__(self, func):
@@ -26,7 +38,7 @@ class SortKey(object):
 
     def __invert__(self):
         cls = type(self)
-        return cls(lambda stat: -self.func(stat))
+        return cls(lambda stat: reversed_key(self.func(stat)))
 
 
 #: Sorting by name in ascending order.
-- 
2.43.0


From b6ec5220ac1ab6cd685b7f996e1e0621cde76d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 06/24] fix: a runnable which failed to start is not running

Runnable.start() left _running set when run() raised, so is_running() was True
and it could not be started again.  The profiling server ignores a failed start
and must not stop a profiler which is not running.
---
 profiling/remote/__init__.py |  3 ++-
 profiling/utils.py           | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ab5cb1a..db08cce 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -177,7 +177,8 @@ class ProfilingServer(object):
                 pass
             # should sleep.
             yield
-            self.profiler.stop()
+            if self.profiler.is_running():
+                self.profiler.stop()
             result = self.profiler.result()
             data = pack_msg(RESULT, result,
                             pickle_protocol=self.pickle_protocol)
diff --git a/profiling/utils.py b/profiling/utils.py
index 5f69fff..1442a30 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -46,11 +46,16 @@ class Runnable(object):
             raise RuntimeError('Already started')
         self._running = self.run(*args, **kwargs)
         try:
-            yielded = next(self._running)
-        except StopIteration:
-            raise TypeError('run() must yield just one time')
-        if yielded is not None:
-            raise TypeError('run() must yield without value')
+            try:
+                yielded = next(self._running)
+            except StopIteration:
+                raise TypeError('run() must yield just one time')
+            if yielded is not None:
+                raise TypeError('run() must yield without value')
+        except BaseException:
+            # failed to start.
+            self._running = None
+            raise
 
     def stop(self):
         """Stops the instance.
-- 
2.43.0


From 2eb0781e484360474d9d16d388ab7186d53211ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 07/24] fix: starting a running profiler keeps what it has
 recorded

Profiler.start() cleared the statistics and the started times before
Runnable.start() rejected the call.
---
 profiling/profiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index eee0e86..d56bdb6 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -46,6 +46,9 @@ class Profiler(Runnable):
         self.stats = RecordingStatistics()
 
     def start(self):
+        if self.is_running():
+            # don't touch the result of the running profiler.
+            raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
         self.stats.clear()
-- 
2.43.0


From cdcf81f2d00490ac9eb9d6e120cd12acfabd10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 08/24] fix: run the remaining deferred calls when one of them
 fails

For example, when stopping the timer failed, the profile hooks of the tracing
profiler stayed registered forever.
---
 profiling/utils.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index 1442a30..0322846 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -136,6 +136,19 @@ class LazyImport(object):
 lazy_import = LazyImport
 
 
+def call_deferred(deferred):
+    """Calls and removes the deferred functions from the last.  If one of them
+    fails, the others will be called anyway.
+    """
+    try:
+        while deferred:
+            f, a, k = deferred.pop()
+            f(*a, **k)
+    finally:
+        if deferred:
+            call_deferred(deferred)
+
+
 @contextmanager
 def deferral():
     """Defers a function call when it is being required like Go.
@@ -153,9 +166,7 @@ def deferral():
     try:
         yield defer
     finally:
-        while deferred:
-            f, a, k = deferred.pop()
-            f(*a, **k)
+        call_deferred(deferred)
 
 
 if sys.version_info < (3, 3):
-- 
2.43.0


From a68048665ece32cbf868849cf2c8bddea9b85dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 09/24] fix: forget the sampled times of dead threads instead
 of living ones

TracingSampler._clear_for_dead_threads() removed the living threads, so they
could be sampled again within the interval and dead threads were never removed.
---
 profiling/sampling/samplers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 4c4a288..633d3ab 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -98,8 +98,10 @@ class TracingSampler(Sampler):
             self._clear_for_dead_threads()
 
     def _clear_for_dead_threads(self):
-        for thread_id in sys._current_frames().keys():
-            self.sampled_times.pop(thread_id, None)
+        living_thread_ids = sys._current_frames()
+        for thread_id in list(self.sampled_times):
+            if thread_id not in living_thread_ids:
+                self.sampled_times.pop(thread_id, None)
 
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
-- 
2.43.0


From c7ad91a3ccb77164e0d5414777fb53bbb0cb93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 10/24] fix: receive remote messages which arrive in pieces

MSG_WAITALL does not guarantee to receive all the bytes: it is ignored on a
non-blocking socket, like the one of FailoverProfilingClient, and it can be cut
short by a signal.  A result larger than the receive buffer looked like a closed
connection, so the client reconnected again and again.
---
 profiling/remote/__init__.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index db08cce..4d8ce73 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EBADF, ECONNRESET, EPIPE
+from errno import EAGAIN, EBADF, ECONNRESET, EPIPE, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -20,6 +20,7 @@ try:
     import cPickle as pickle
 except ImportError:
     import pickle
+from select import select as wait_for_sockets
 import socket
 import struct
 
@@ -68,10 +69,21 @@ def pack_msg(method, msg, pickle_protocol=PICKLE_PROTOCOL):
 
 def recv(sock, size):
     """Receives exactly `size` bytes.  This function blocks the thread."""
-    data = sock.recv(size, socket.MSG_WAITALL)
-    if len(data) < size:
-        raise socket.error(ECONNRESET, 'Connection closed')
-    return data
+    chunks = []
+    while size:
+        try:
+            chunk = sock.recv(size, socket.MSG_WAITALL)
+        except socket.error as exc:
+            if exc.errno not in (EAGAIN, EWOULDBLOCK):
+                raise
+            # a non-blocking socket ignores MSG_WAITALL.
+            wait_for_sockets([sock], (), ())
+            continue
+        if not chunk:
+            raise socket.error(ECONNRESET, 'Connection closed')
+        chunks.append(chunk)
+        size -= len(chunk)
+    return b''.join(chunks)
 
 
 def recv_msg(sock):
-- 
2.43.0


From 99e01366eb55d3fae8439aec877fd70faeb13f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 11/24] fix: drop a client when a broadcast to it fails

Errors other than EPIPE were ignored.  After a partial send (EAGAIN) the client
stayed and got the next result in the middle of the broken one.  And a client
which connects while sending to another one (gevent) changed the set being
iterated.
---
 profiling/remote/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 4d8ce73..4d92613 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -197,12 +197,13 @@ class ProfilingServer(object):
             self._latest_result_data = data
             # broadcast.
             closed_clients = []
-            for client in self.clients:
+            for client in list(self.clients):
                 try:
                     self._send(client, data)
-                except socket.error as exc:
-                    if exc.errno == EPIPE:
-                        closed_clients.append(client)
+                except socket.error:
+                    # a part of the data might be sent, so the client cannot
+                    # understand anything after it.
+                    closed_clients.append(client)
             del data
             # handle disconnections.
             for client in closed_clients:
-- 
2.43.0


From 8e06116c801532d52e6720e9d6018f10a20590d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 12/24] fix: a client which breaks while being greeted doesn't
 break the server

A connection error at sending the welcome or profiler message, or an error other
than EBADF and EPIPE at sending the latest result, stopped the server and left
the dead client in the client set.
---
 profiling/remote/__init__.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 4d92613..72af4c8 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EAGAIN, EBADF, ECONNRESET, EPIPE, EWOULDBLOCK
+from errno import EAGAIN, ECONNRESET, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -221,23 +221,22 @@ class ProfilingServer(object):
         self.clients.add(client)
         self._log_connected(client)
         self._start_watching(client)
-        self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
-                      pickle_protocol=0)
         profiler = self.profiler
         while True:
             try:
                 profiler = profiler.profiler
             except AttributeError:
                 break
-        self.send_msg(client, PROFILER, type(profiler))
-        if self._latest_result_data is not None:
-            try:
+        try:
+            self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
+                          pickle_protocol=0)
+            self.send_msg(client, PROFILER, type(profiler))
+            if self._latest_result_data is not None:
                 self._send(client, self._latest_result_data)
-            except socket.error as exc:
-                if exc.errno in (EBADF, EPIPE):
-                    self.disconnected(client)
-                    return
-                raise
+        except socket.error:
+            # the client has gone or cannot be greeted completely.
+            self.disconnected(client)
+            return
         if len(self.clients) == 1:
             self._start_profiling()
 
-- 
2.43.0


From 4c71801ae82b1b45f400d776af67d555e54e4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 13/24] fix: don't nest profiling loops in the profiling server

When a client connected in the same dispatch as the last one disconnected, the
select server started a second loop inside the first one.  The inner loop
stopped the profiler, then the outer one failed to stop it and the server died.
---
 profiling/remote/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 72af4c8..2874d35 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -139,6 +139,9 @@ class ProfilingServer(object):
 
     _latest_result_data = None
 
+    #: Whether :meth:`profiling` is iterating.
+    _profiling = False
+
     def __init__(self, profiler, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL):
         self.profiler = profiler
@@ -181,6 +184,14 @@ class ProfilingServer(object):
                    time.sleep(self.interval)
 
         """
+        self._profiling = True
+        try:
+            for __ in self._profiling_cycles():
+                yield
+        finally:
+            self._profiling = False
+
+    def _profiling_cycles(self):
         self._log_profiler_started()
         while self.clients:
             try:
@@ -237,7 +248,7 @@ class ProfilingServer(object):
             # the client has gone or cannot be greeted completely.
             self.disconnected(client)
             return
-        if len(self.clients) == 1:
+        if len(self.clients) == 1 and not self._profiling:
             self._start_profiling()
 
     def disconnected(self, client):
-- 
2.43.0


From 5528c6257493141632668411e54c2c755d8b5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 14/24] fix: don't hang the background thread when the profiler
 fails to start

BackgroundProfiler waits for the signal handler, but the handler didn't set the
event when the profiler couldn't be started or stopped.
---
 profiling/remote/background.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 09a341b..29a8df8 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -49,8 +49,10 @@ class BackgroundProfiler(ProfilerWrapper):
         self.event.wait()
 
     def _signal_handler(self, signum, frame):
-        if self.profiler.is_running():
-            self.profiler.stop()
-        else:
-            self.profiler.start()
-        self.event.set()
+        try:
+            if self.profiler.is_running():
+                self.profiler.stop()
+            else:
+                self.profiler.start()
+        finally:
+            self.event.set()
-- 
2.43.0


From ec896253c7796126d6192ecb0f878911cb69578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 15/24] fix: keep retrying when the server refuses a connection
 immediately

connect_ex() to a UNIX socket file nobody listens on returns ECONNREFUSED at
once, which terminated the fail-over client by ValueError.
---
 profiling/remote/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index b3ce40c..2deeac2 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -96,8 +96,8 @@ class FailoverProfilingClient(ProfilingClient):
             elif errno == EINPROGRESS:
                 # will be connected.
                 break
-            elif errno == ENOENT:
-                # no such socket file.
+            elif errno in (ENOENT, ECONNREFUSED):
+                # no such socket file or nobody listens on it.
                 self.create_connection(self.failover_interval)
                 return
             else:
-- 
2.43.0


From 35d5cee2f765af8625da37f6c7784513a0dbd7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 16/24] fix: show the time of the result in the viewer header

StatisticsTable.set_result() keeps the time in `at` but the header was made from
`time` which has always been None.
---
 profiling/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 6388d30..af4e088 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -478,7 +478,7 @@ class StatisticsTable(urwid.WidgetWrap):
 
     title = None
     stats = None
-    time = None
+    at = None
 
     def __init__(self, viewer):
         self._expanded_stat_hashes = set()
@@ -637,7 +637,7 @@ class StatisticsTable(urwid.WidgetWrap):
         if stats is None:
             return
         title = self.title
-        time = self.time
+        time = self.at
         if title or time:
             if time is not None:
                 time_string = '{:%H:%M:%S}'.format(time)
-- 
2.43.0


From 75ef6ad2ccdd02757ef4c20e1ca5d8ec44645ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 17/24] fix: forget disconnected clients of the asyncio server

The callback called disconnected() with two arguments, so it raised TypeError
and a disconnected client stayed forever.
---
 profiling/remote/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/remote/asyncio.py b/profiling/remote/asyncio.py
index b3cd904..78a89ad 100644
--- a/profiling/remote/asyncio.py
+++ b/profiling/remote/asyncio.py
@@ -64,7 +64,7 @@ class AsyncIOProfilingServer(ProfilingServer):
 
     def _start_watching(self, client):
         reader, writer = client
-        disconnected = lambda x: self.disconnected(reader, writer)
+        disconnected = lambda x: self.disconnected(client)
         asyncio.async(reader.read()).add_done_callback(disconnected)
 
     @asyncio.coroutine
-- 
2.43.0


From 36932d289132af7ff84c223008202dee70c095b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 18/24] fix: make the asyncio server importable on Python 3.7
 or later

`async` became a keyword, so the module was a syntax error.
---
 profiling/remote/asyncio.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/profiling/remote/asyncio.py b/profiling/remote/asyncio.py
index 78a89ad..27a5536 100644
--- a/profiling/remote/asyncio.py
+++ b/profiling/remote/asyncio.py
@@ -22,6 +22,13 @@ from profiling.remote import ProfilingServer
 __all__ = ['AsyncIOProfilingServer']
 
 
+try:
+    ensure_future = asyncio.ensure_future
+except AttributeError:
+    # before Python 3.4.4.
+    ensure_future = getattr(asyncio, 'async')
+
+
 class AsyncIOProfilingServer(ProfilingServer):
     """A profiling server implementation based on `asyncio`_.  Launch a server
     by ``asyncio.start_server`` or ``asyncio.start_unix_server``::
@@ -60,12 +67,12 @@ class AsyncIOProfilingServer(ProfilingServer):
         return writer.get_extra_info('peername')
 
     def _start_profiling(self):
-        asyncio.async(self.profile_periodically())
+        ensure_future(self.profile_periodically())
 
     def _start_watching(self, client):
         reader, writer = client
         disconnected = lambda x: self.disconnected(client)
-        asyncio.async(reader.read()).add_done_callback(disconnected)
+        ensure_future(reader.read()).add_done_callback(disconnected)
 
     @asyncio.coroutine
     def profile_periodically(self):
-- 
2.43.0


From 406c4aab65d0317616cbd078d7369251cb2be291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:16 +0000
Subject: [PATCH 19/24] fix: an event of an ignored frame keeps its caller on
 the path

---
 profiling/sampling/__init__.py | 2 +-
 profiling/tracing/__init__.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/sampling/__init__.py b/profiling/sampling/__init__.py
index d13e851..db8a2ba 100644
--- a/profiling/sampling/__init__.py
+++ b/profiling/sampling/__init__.py
@@ -65,7 +65,7 @@ class SamplingProfiler(Profiler):
     def sample(self, frame):
         """Samples the given frame."""
         frames = self.frame_stack(frame)
-        if frames:
+        if frames and frames[-1] is frame:
             frames.pop()
         parent_stats = self.stats
         for f in frames:
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 9dad1f2..25472c3 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -84,7 +84,7 @@ class TracingProfiler(Profiler):
             return
         time1 = self.timer()
         frames = self.frame_stack(frame)
-        if frames:
+        if frames and frames[-1] is frame:
             frames.pop()
         parent_stats = self.stats
         for f in frames:
-- 
2.43.0


From 68a9667050574dcfc253b633f8cc821b10a39e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 20/24] fix: dump and show a wrapped profiler under its own
 class

---
 profiling/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index d56bdb6..b7941e0 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -119,7 +119,7 @@ class Profiler(Runnable):
 class ProfilerWrapper(Profiler):
 
     for attr in ['table_class', 'stats', 'top_frame', 'top_code', 'result',
-                 'is_running']:
+                 'is_running', 'dump', 'make_viewer']:
         f = lambda self, attr=attr: getattr(self.profiler, attr)
         locals()[attr] = property(f)
         del f
-- 
2.43.0


From 225bcb998d25c8170b0fd1aed41294dbebd6ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 21/24] fix: stop a profiler which was started without its
 background wrapper

---
 profiling/remote/background.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 29a8df8..6a2b1d8 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -38,6 +38,13 @@ class BackgroundProfiler(ProfilerWrapper):
         """
         return signal.signal(self.signum, self._signal_handler)
 
+    def stop(self):
+        if self._running is None and self.is_running():
+            # the profiler was started without this wrapper.
+            self._send_signal()
+        else:
+            super(BackgroundProfiler, self).stop()
+
     def run(self):
         self._send_signal()
         yield
-- 
2.43.0


From 578b54b1494363199fde88ccc523cbf937b2e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 22/24] fix: write the dump to the requested file even if the
 program changes the directory

---
 profiling/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 418a9b6..317d199 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -537,6 +537,9 @@ live_profiler_options = Params([
 def __profile__(filename, code, globals_, profiler_factory,
                 pickle_protocol=remote.PICKLE_PROTOCOL, dump_filename=None,
                 mono=False):
+    if dump_filename is not None:
+        # the program may change the current directory.
+        dump_path = os.path.abspath(dump_filename)
     frame = sys._getframe()
     profiler = profiler_factory(base_frame=frame, base_code=code)
     profiler.start()
@@ -556,7 +559,7 @@ def __profile__(filename, code, globals_, profiler_factory,
         except KeyboardInterrupt:
             pass
     else:
-        profiler.dump(dump_filename, pickle_protocol)
+        profiler.dump(dump_path, pickle_protocol)
 
         click.echo('To view statistics:')
         click.echo('  $ profiling view ', nl=False)
-- 
2.43.0


From d069ea59d3a0ddf7ff553665d45400db0af6d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 23/24] fix: accept a fractional interval in the configuration

---
 profiling/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 317d199..3dc6ccb 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -514,7 +514,7 @@ onetime_profiler_options = Params([
 live_profiler_options = Params([
     click.option(
         '-i', '--interval', type=float,
-        default=config_default('interval', remote.INTERVAL),
+        default=config_default('interval', remote.INTERVAL, float),
         help='How often update result. (default: %.0f sec)' % remote.INTERVAL),
     click.option(
         '--spawn', type=click.Choice(spawn.modes),
-- 
2.43.0


From 43eb2ad77be4a643a5089ec03eaa9015aca36e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 24/24] fix: don't collapse the root of the table by a key

---
 profiling/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index af4e088..986658a 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -349,6 +349,10 @@ class RootStatisticsWidget(StatisticsWidget):
     def unexpand(self):
         pass
 
+    def keypress(self, size, key):
+        # The root has no row. Never collapse it by a key.
+        return key
+
 
 class StatisticsNodeBase(urwid.TreeNode):
 
-- 
2.43.0

