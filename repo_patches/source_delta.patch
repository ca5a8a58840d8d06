From 785640ad8e935765039ef9b2edc1e5fedecda46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 01/44] fix: ThreadSafeRegulator loses a wake sent just before
 a thread sleeps

A thread in Scheduler._next decides how long to sleep while holding the
lock, then releases the lock, then sleeps.  If another thread schedules
an earlier event (or cancels one) in between, its wake used to set and
clear the event before the first thread was waiting on it, and the first
thread overslept.
---
 big/scheduler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index 7bf6617..b6cbc68 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -173,11 +173,20 @@ class ThreadSafeRegulator(Regulator):
         return time.monotonic()
 
     def wake(self):
-        self.event.set()
-        self.event.clear()
+        # Every wake sets the current event for good, and replaces it.
+        # (Setting then clearing one shared event would only wake threads
+        # already waiting on it; a thread that has decided to sleep, but
+        # isn't waiting yet, would miss the wake.)
+        event = self.event
+        self.event = threading.Event()
+        event.set()
 
-    def sleep(self, interval):
-        self.event.wait(interval)
+    @property
+    def sleep(self):
+        # Scheduler fetches sleep while holding the lock, then calls it
+        # after releasing the lock.  Binding the event at fetch time means
+        # a wake that happens between those two steps isn't lost.
+        return self.event.wait
 
 
 DEFAULT_PRIORITY = 100
-- 
2.43.0


From e815e55456404f2ca890d049b29c6300855c1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 02/44] fix: Heap returns the wrong value for indices -2
 through -9

---
 big/heap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/big/heap.py b/big/heap.py
index 187902e..12654d7 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -145,8 +145,11 @@ class Heap:
             l = nsmallest(item + 1, self._queue)
             return l[item]
         elif -10 < item < 0:
-            l = nlargest((-item) + 1, self._queue)
-            return l[item]
+            # nlargest returns the largest... IN REVERSE ORDER.  *smh*
+            l = nlargest(-item, self._queue)
+            if len(l) < -item:
+                raise IndexError("heap index out of range")
+            return l[-1]
         l = sorted(self._queue)
         # __getitem__ on a list handles ints and slices!
         return l[item]
-- 
2.43.0


From 73a5c845def1cebe768be3708e6d6a11295ec4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 03/44] fix: Heap.extend leaves a broken heap if its argument
 fails part way

---
 big/heap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index 12654d7..2977307 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -75,7 +75,10 @@ class Heap:
         return copy
 
     def extend(self, i):
-        self._queue.extend(i)
+        # exhaust i before touching the queue.
+        # if iterating over i fails, the heap must not
+        # be left with some of the values, un-heapified.
+        self._queue.extend(list(i))
         heapify(self._queue)
         self._version += 1
 
-- 
2.43.0


From bf64554f2df24ee5f73c87a0dcf336ed4457e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 04/44] fix: graph view never yields a node that gains a
 dependency on a done node

---
 big/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/graph.py b/big/graph.py
index 8b1dc7d..072245f 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -291,7 +291,8 @@ class TopologicalSorter:
                 self._conflicts[node].add(successor)
                 self._reverse_conflicts[successor].add(node)
 
-            if successor not in self._done:
+            # if "node" is already done (it's C), successor isn't waiting for it.
+            if conflict_1 and (successor not in self._done):
                 self._predecessors[successor] += 1
                 if self._predecessors[successor] == 1:
                     try:
-- 
2.43.0


From f9b7c70d8b832d023b34f8dc1a2415b726c04b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 05/44] fix: TopologicalSorter.copy entangles the copy's views
 with the original

The copy's views stayed registered with the original graph (so editing
the original changed the copy's views, and editing the copy didn't), and
the copy forgot that it had to check for cycles.
---
 big/graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 072245f..25c86b4 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -566,10 +566,12 @@ class TopologicalSorter:
             p, s = p_s
             clone.nodes[node] = [p, s.copy()]
 
-        clone._default_view = self._default_view.copy()
-        clone._default_view.graph = clone
-        clone._stock_view = self._stock_view.copy()
-        clone._stock_view.graph = clone
+        clone.dirty = self.dirty
+
+        # replace the views clone was created with
+        clone.views.clear()
+        clone._default_view = clone.View(clone, original=self._default_view)
+        clone._stock_view = clone.View(clone, original=self._stock_view)
 
         return clone
 
-- 
2.43.0


From 256d2b77f619f4b5b7b5ba69fabf8b491a56a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 06/44] fix: TopologicalSorter.done counts duplicates twice and
 applies failed calls

done('a', 'a') satisfied two dependencies of a's successors, so they
became ready too early.  done('a', 'bogus') raised ValueError after
releasing a's successors, but without marking a done.
---
 big/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 25c86b4..0068016 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -208,11 +208,15 @@ class TopologicalSorter:
                 raise ValueError("TopologicalSorter view has already been closed")
             if self._conflicts:
                 self._raise_conflicts()
+            # check everything before changing anything.
+            # (the dict removes duplicates and preserves order.)
+            nodes = dict.fromkeys(nodes)
             for node in nodes:
                 if node not in self.graph.nodes:
                     raise ValueError(f"node {node!r} was not added using add()")
                 if node not in self._yielded:
                     raise ValueError(f"node {node!r} was not passed out")
+            for node in nodes:
                 # print("CALL _mark_node_done", node, self.graph.nodes[node])
                 self._mark_node_done(node, self.graph.nodes[node][1])
             nodes = set(nodes)
-- 
2.43.0


From 40c56093e6c0370e81a7a05a192b4670788ccaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 07/44] fix: TopologicalSorter.add leaves a broken graph if a
 node isn't hashable

---
 big/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 0068016..5a8a7a5 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -476,6 +476,9 @@ class TopologicalSorter:
         """
         # print(f"{node:3} depends on {dependencies!r}")
 
+        # if any argument isn't hashable, raise before changing anything
+        hash((node, dependencies))
+
         new_nodes = []
         new_successors = []
 
-- 
2.43.0


From 894b71b30c00dfbc43a1ade83c36de22a495252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 08/44] fix: PushbackIterator hides every exception raised by
 its iterator

A failing iterator looked like an exhausted one.
---
 big/itertools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/itertools.py b/big/itertools.py
index e385373..6faef73 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -44,7 +44,7 @@ class PushbackIterator:
         if self.i:
             try:
                 return next(self.i)
-            except:
+            except StopIteration:
                 self.i = None
         raise StopIteration
 
-- 
2.43.0


From f2d0e615a7ba2138b7ec719ed0be0200f01e9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 09/44] fix: PushbackIterator ignores iterators that are false

---
 big/itertools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/itertools.py b/big/itertools.py
index 6faef73..c0e8a15 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -41,7 +41,7 @@ class PushbackIterator:
     def __next__(self):
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -57,7 +57,7 @@ class PushbackIterator:
         """
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -67,7 +67,7 @@ class PushbackIterator:
     def __bool__(self):
         if self.stack:
             return True
-        if self.i:
+        if self.i is not None:
             try:
                 o = next(self.i)
                 self.push(o)
-- 
2.43.0


From 8d3d952a5a317fbe258bff979637f2557bf4c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 10/44] fix: Log.print prints the wrong fraction for times of a
 second or more

---
 big/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/log.py b/big/log.py
index ef96c9c..f022eff 100644
--- a/big/log.py
+++ b/big/log.py
@@ -179,7 +179,7 @@ class Log:
         def format_time(t):
             assert t is not None
             seconds = t // 1_000_000_000
-            nanoseconds = f"{t - seconds:>09}"
+            nanoseconds = f"{t - (seconds * 1_000_000_000):>09}"
             nanoseconds = nanoseconds[:fractional_width]
             return f"{seconds:0{seconds_width}}.{nanoseconds}"
 
-- 
2.43.0


From d28ac8a8485766506d69a06e8dec0aeea3649aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 11/44] fix: StateManager can never transition again if on_exit
 or an observer raises

---
 big/state.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/big/state.py b/big/state.py
index 6bed7dc..298c67c 100644
--- a/big/state.py
+++ b/big/state.py
@@ -227,16 +227,22 @@ class StateManager:
         self.__next = state
         # as of this moment we are "transitioning" to a new state.
 
-        if self.on_exit:
-            on_exit = getattr(self.__state, self.on_exit, None)
-            if on_exit is not None:
-                on_exit()
-        if self.observers:
-            if self.observers != self._observers_copy:
-                self._observers_copy = list(self.observers)
-                self._observers_tuple = tuple(self.observers)
-            for o in self._observers_tuple:
-                o(self)
+        try:
+            if self.on_exit:
+                on_exit = getattr(self.__state, self.on_exit, None)
+                if on_exit is not None:
+                    on_exit()
+            if self.observers:
+                if self.observers != self._observers_copy:
+                    self._observers_copy = list(self.observers)
+                    self._observers_tuple = tuple(self.observers)
+                for o in self._observers_tuple:
+                    o(self)
+        except BaseException:
+            # the transition failed.  we're still in the old state,
+            # and we're not transitioning to anything anymore.
+            self.__next = None
+            raise
 
         self.__state = state
         self.__next = None
-- 
2.43.0


From 57f2c470118bff9ad344915c328bf1542d5b4f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 12/44] fix: StateManager calls a removed observer if its
 replacement compares equal

---
 big/state.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/big/state.py b/big/state.py
index 298c67c..656fe0a 100644
--- a/big/state.py
+++ b/big/state.py
@@ -233,10 +233,8 @@ class StateManager:
                 if on_exit is not None:
                     on_exit()
             if self.observers:
-                if self.observers != self._observers_copy:
-                    self._observers_copy = list(self.observers)
-                    self._observers_tuple = tuple(self.observers)
-                for o in self._observers_tuple:
+                # iterate over a copy, observers may modify the list
+                for o in tuple(self.observers):
                     o(self)
         except BaseException:
             # the transition failed.  we're still in the old state,
@@ -283,8 +281,6 @@ class StateManager:
         self.on_exit = on_exit
 
         self.observers = []
-        self._observers_copy = []
-        self._observers_tuple = ()
         self.state = state
 
     def __repr__(self):
-- 
2.43.0


From b368e1e0256d4c8cff7aaf99735335287e1b8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 13/44] fix: touch truncates a file created by someone else at
 the same time

---
 big/file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/big/file.py b/big/file.py
index d9bcf65..7a161b3 100644
--- a/big/file.py
+++ b/big/file.py
@@ -272,8 +272,11 @@ def touch(path):
     if os.path.exists(path):
         os.utime(path)
     else:
-        with open(path, "wb") as f:
+        # append mode never truncates: if someone else creates
+        # the file first, we mustn't destroy what they wrote.
+        with open(path, "ab") as f:
             pass
+        os.utime(path)
 
 # exfat allowed characters:
 #
-- 
2.43.0


From 3fa1ee20e68cc5ed6613003f944568ab29d8bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 14/44] fix: safe_unlink raises if someone else removes the
 file first

---
 big/file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big/file.py b/big/file.py
index 7a161b3..25ec6ec 100644
--- a/big/file.py
+++ b/big/file.py
@@ -231,7 +231,11 @@ def safe_unlink(path):
     Unlinks path, if path exists and is a file.
     """
     if os.path.isfile(path):
-        os.unlink(path)
+        try:
+            os.unlink(path)
+        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
+            # someone else got there first, there's no file here anymore.
+            pass
 
 @export
 def file_size(path):
-- 
2.43.0


From fc464e4f40b3b8920b8f66d8e9f895f7621f6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 15/44] fix: safe_mkdir raises if someone else replaces the
 file first

---
 big/file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/big/file.py b/big/file.py
index 25ec6ec..eb72514 100644
--- a/big/file.py
+++ b/big/file.py
@@ -221,8 +221,7 @@ def safe_mkdir(path):
       * You could ask to create the directory 'x/y'
         and 'x' is a file (not a directory).
     """
-    if os.path.isfile(path):
-        os.unlink(path)
+    safe_unlink(path)
     os.makedirs(path, exist_ok=True)
 
 @export
-- 
2.43.0


From bcbf3630b5cd2daa20a4e968e6f08173cb73e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 16/44] fix: two threads can get two different bound inner
 classes

If two threads accessed a bound inner class through the same outer
object for the first time at the same time, each got its own class.
---
 README.md              | 14 --------------
 big/boundinnerclass.py |  7 +++++++
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/README.md b/README.md
index cc72fa1..5d15739 100644
--- a/README.md
+++ b/README.md
@@ -6118,20 +6118,6 @@ in the **big** test suite.
   the `B` object but not the `A` object. When `D` calls `super().__init__`
   it'll have to fill in the `outer` parameter by hand.
 
-* There's a race condition in the implementation: if you access a
-  bound inner class through an outer instance from two separate threads,
-  and the bound inner class was not previously cached, the two threads
-  may get different (but equivalent) bound inner class objects, and only
-  one of those instances will get cached on the outer object.  This could
-  lead to confusion and possibly cause bugs. For example, you could have
-  two objects that would be considered equal if they were instances of
-  the same bound inner class, but would not be considered equal if
-  instantiated by different instances of that same bound inner class.
-  There's an easy workaround for this problem: access the bound inner
-  class from the `__init__` of the outer class, which should allow
-  the code to cache the bound inner class instance before a second
-  thread could ever get a reference to the outer object.
-
 </dd></dl>
 
 
diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 3540750..0c78b07 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -135,6 +135,13 @@ class _Worker(object):
         # Cache the bound instance in outer's dict.
         # This also means that future requests for us won't call our
         # __get__ again, it'll automatically use the cached copy.
+        #
+        # If another thread cached one for the same class while we were
+        # busy creating ours, use theirs.  (The unbound class is always
+        # the first base of the bound inner class.)
+        cached = outer.__dict__.setdefault(name, Wrapper)
+        if getattr(cached, "__bases__", (None,))[0] is self.cls:
+            return cached
         outer.__dict__[name] = Wrapper
         return Wrapper
 
-- 
2.43.0


From e3b344f8d082e7f15b8cebe946676210d1c618ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 17/44] fix: heap[-1] on an empty heap raises IndexError, not
 ValueError

---
 big/heap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/heap.py b/big/heap.py
index 2977307..cd5c094 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -143,6 +143,8 @@ class Heap:
         elif item == 0:
             return self._queue[0]
         elif item == -1:
+            if not self._queue:
+                raise IndexError("heap index out of range")
             return max(self._queue)
         elif 0 < item < 10:
             l = nsmallest(item + 1, self._queue)
-- 
2.43.0


From 8c613ca49f929dfcd16bc4ef3e596b628a4e2d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 18/44] fix: a heap iterator is an iterator (it has an
 __iter__)

---
 big/heap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/heap.py b/big/heap.py
index cd5c094..1b949e6 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -165,6 +165,9 @@ class Heap:
             self._copy = heap._queue.copy()
             self._version = heap._version
 
+        def __iter__(self):
+            return self
+
         def __next__(self):
             if self._version != self._heap._version:
                 raise RuntimeError("heap modified during iteration")
-- 
2.43.0


From 716dc063a80c41661a3ff8ae41e66e1941919d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 19/44] fix: PushbackIterator compares its source to None by
 identity

---
 big/itertools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/itertools.py b/big/itertools.py
index c0e8a15..29a8c8c 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -20,7 +20,7 @@ class PushbackIterator:
     __slots__ = ('i', 'stack')
 
     def __init__(self, iterable=None):
-        if (iterable != None) and (not hasattr(iterable, '__next__')):
+        if (iterable is not None) and (not hasattr(iterable, '__next__')):
             iterable = iter(iterable)
         self.i = iterable
         self.stack = []
-- 
2.43.0


From 20f944f545de25c94249d09bc3312e1d0193f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 20/44] fix: lines_strip_indent raised IndentationError for a
 dedent of two levels

---
 big/text.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/big/text.py b/big/text.py
index 58c5e8d..0809e4b 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3641,15 +3641,10 @@ def lines_strip_indent(li):
             assert leadings
             leadings.pop()
             indent -= 1
-            while leadings:
-                l = leadings[-1]
-                if l >= column_number:
-                    if l > column_number:
-                        leadings.clear()
-                    break
+            while leadings and (leadings[-1] > column_number):
                 leadings.pop()
                 indent -= 1
-            if not leadings:
+            if not (leadings and (leadings[-1] == column_number)):
                 raise IndentationError(f"Line {info.line_number} column {column_number}: unindent doesn't match any outer indentation level")
             new_indent = False
 
-- 
2.43.0


From d55070f56699a9276047b53335e27949eb7e0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 21/44] fix: lines_strip divided what it stripped wrongly into
 leading and trailing

---
 big/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 0809e4b..cd46c5c 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3168,7 +3168,11 @@ def lines_strip(li, separators=None):
             if line:
                 stripped = multistrip(line, separators)
                 if stripped:
-                    leading, _, trailing = line.partition(stripped)
+                    # don't search for stripped in line,
+                    # it could also appear inside what we stripped.
+                    lstripped = multistrip(line, separators, right=False)
+                    leading = line[:len(line) - len(lstripped)]
+                    trailing = lstripped[len(stripped):]
                 else:
                     trailing = line
 
-- 
2.43.0


From d645ad94fac88de0ee9e82dab23981304d80d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 22/44] fix: split_delimiters lost count of its position after
 text that is no delimiter

A token that the current state ignores was appended to the text without
advancing the position, so errors named the wrong index, and resplitting
later in the same text repeated part of it.
---
 big/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/text.py b/big/text.py
index cd46c5c..2fe7405 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2637,6 +2637,7 @@ def split_delimiters(text, all_tokens, current, stack, empty, laden, str_or_byte
                 consumed += len(delimiter)
             elif action is _ACTION_FLUSH:
                 append(delimiter)
+                consumed += len(delimiter)
             elif action is _ACTION_FLUSH_1_AND_RESPLIT:
                 # flush first character of delimiter, and resplit.
                 append(delimiter[0:1])
-- 
2.43.0


From 17e9c57e81d9e1fb46f4f01d550c66d70cd6e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 23/44] fix: pushd returns to the directory current before the
 block

It returned to the directory current when the pushd object was created,
which is another one if the object is made earlier or used again inside
its own block.
---
 big/file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/file.py b/big/file.py
index eb72514..acaa182 100644
--- a/big/file.py
+++ b/big/file.py
@@ -192,11 +192,13 @@ class pushd:
     """
     def __init__(self, path):
         self.path = path
-        self.cwd = os.getcwd()
+        self.cwds = []
     def __enter__(self):
+        cwd = os.getcwd()
         os.chdir(self.path)
+        self.cwds.append(cwd)
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
 @export
-- 
2.43.0


From 9a25bff172ef655c85b1b01cf1b93821d63a6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 24/44] fix: TopologicalSorter.cycle can take exponential time
 to find a cycle

---
 big/graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 5a8a7a5..61f0a12 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -630,6 +630,7 @@ class TopologicalSorter:
         # but this is Python and we could blow our stack.
         iterators = [iter(nodes)]
         seen = set()
+        finished = set()
         cycle = []
 
         while iterators:
@@ -641,6 +642,12 @@ class TopologicalSorter:
                 # marked 'done' yet, and the only thing we ever
                 # add to 'iterators' are successor nodes.
                 assert node not in done
+                if node in finished:
+                    # we've already been through node and all its
+                    # successors, and there was no cycle there.
+                    # (without this, the search visits every *path*
+                    # through the graph, which can take forever.)
+                    continue
                 if node in seen:
                     # found a cycle
                     index = cycle.index(node)
@@ -654,6 +661,7 @@ class TopologicalSorter:
                 # ascend
                 node = cycle.pop()
                 seen.remove(node)
+                finished.add(node)
                 iterators.pop()
 
     def check_for_cycles(self):
-- 
2.43.0


From d831bc3ddcacf4d4c2cfc9a1c0cf3bf559cce1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 25/44] fix: printing a closed view of a TopologicalSorter
 raises AttributeError

---
 big/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 61f0a12..093b1b7 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -122,6 +122,8 @@ class TopologicalSorter:
             self._done = set()
 
         def __repr__(self):
+            if self.graph is None:
+                return f"<View {hex(id(self))} closed>"
             return f"<View {hex(id(self))} on graph={hex(id(self.graph))} ready={self._ready} yielded={len(self._yielded)} done={len(self._done)} conflicts={bool(self._conflicts)}>"
 
         def copy(self):
@@ -366,6 +368,8 @@ class TopologicalSorter:
             print is the function used for printing;
             it should behave identically to the builtin print function.
             """
+            if self.graph is None:
+                raise ValueError("TopologicalSorter view has already been closed")
             print(self)
             print("      _ready:", _hopefully_sorted_collection(self._ready))
             print("    _yielded:", _hopefully_sorted_collection(self._yielded))
-- 
2.43.0


From 505d756b5faefef920e804eec999d2bf9bdfd414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 26/44] fix: LineInfo column numbers are wrong after clipping
 tabs and then the whole line

---
 big/text.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/big/text.py b/big/text.py
index 2fe7405..b3f8199 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2910,7 +2910,7 @@ class LineInfo:
             # (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
@@ -2919,10 +2919,10 @@ class LineInfo:
             return empty
         if s is None:
             s = l[:i]
+        # measure all of leading: how wide a tab is depends on what precedes it
+        self.column_number -= len(self.detab(self.leading))
         self.leading += s
-        detabbed = self.detab(s)
-        length = len(detabbed)
-        self.column_number += length
+        self.column_number += len(self.detab(self.leading))
         return line
 
     def clip_trailing(self, line, s):
@@ -2951,7 +2951,7 @@ class LineInfo:
             # if you clip the entire line, we move the entire line into trailing (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
-- 
2.43.0


From 059b4e7956d6c47b6c68ca80f36eb713a0ce0b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 27/44] fix: Heap ignores the values of an iterable that is
 false

---
 big/heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index 1b949e6..6bf8ad8 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -50,7 +50,7 @@ class Heap:
         * Use Heap[0] to peek at the first value on the heap.
     """
     def __init__(self, i=None):
-        if not i:
+        if i is None:
             self._queue = []
         else:
             self._queue = list(i)
-- 
2.43.0


From e087a585173b95c98cc7d1baf2372fc80681ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:07 +0000
Subject: [PATCH 28/44] fix: Log ignores a clock or print function that is
 false

---
 big/log.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/big/log.py b/big/log.py
index f022eff..57cee10 100644
--- a/big/log.py
+++ b/big/log.py
@@ -83,8 +83,7 @@ class Log:
     # randomly in the last... seven? digits.  You'll go blind!)
 
     def __init__(self, clock=None):
-        clock = clock or default_clock
-        self.clock = clock
+        self.clock = default_clock if clock is None else clock
         self.reset()
 
     def reset(self):
@@ -170,7 +169,7 @@ class Log:
         seconds_width is how wide to make the seconds column, default 2.
         fractional_width is how wide to make the fractional column, default 9.
         """
-        if not print:
+        if print is None:
             print = builtins.print
 
         indent = " " * indent
-- 
2.43.0


From eb7e48c3ae39cf55b917f237a8af45524990e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:35 +0000
Subject: [PATCH 29/44] fix: split_delimiters names the open delimiter when it
 resumes from a state

---
 big/text.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index b3f8199..483d1f8 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2476,7 +2476,7 @@ def _delimiters_to_state_and_tokens(delimiters, is_bytes):
     return initial_state, all_tokens
 
 
-def split_delimiters(text, all_tokens, current, stack, empty, laden, str_or_bytes):
+def split_delimiters(text, all_tokens, current, open, stack, empty, laden, str_or_bytes):
     """
     Internal generator function returned by the real split_delimiters.
 
@@ -2551,8 +2551,6 @@ def split_delimiters(text, all_tokens, current, stack, empty, laden, str_or_byte
     push = stack.append
     pop = stack.pop
 
-    open = None
-
     buffer = []
     append = buffer.append
     clear = buffer.clear
@@ -2774,12 +2772,13 @@ def split_delimiters(s, delimiters=split_delimiters_default_delimiters, *, state
             action = current.get(delimiter, _ACTION_FLUSH)
             if isinstance(action, dict):
                 push((current, open))
+                open = delimiter
                 current = action
                 continue
 
             raise ValueError(f"delimiter #{i} specified in state is invalid: {delimiter!r}")
 
-    return _split_delimiters(s, all_tokens, current, stack, empty, laden, str_or_bytes)
+    return _split_delimiters(s, all_tokens, current, open, stack, empty, laden, str_or_bytes)
 
 
 
-- 
2.43.0


From 9db348be8480f50be82b15bdf44ab3346d8e6e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 30/44] fix: an interrupted cycle query doesn't make later ones
 miss the cycle

---
 big/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 093b1b7..de172ee 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -597,7 +597,6 @@ class TopologicalSorter:
             # dirty bit is only cleared when we don't have a cycle.
             # ergo, if dirty bit isn't set, we have no cycles.
             return None
-        self.dirty = False
 
         counts = {node: value[0] for node, value in self.nodes.items()}
         done = set()
@@ -615,6 +614,7 @@ class TopologicalSorter:
 
         if len(done) == len(counts):
             # no cycles!
+            self.dirty = False
             return None
 
         # cycle detected.
@@ -655,7 +655,6 @@ class TopologicalSorter:
                 if node in seen:
                     # found a cycle
                     index = cycle.index(node)
-                    self.dirty = True
                     return tuple(cycle[index:])
                 # descend
                 seen.add(node)
-- 
2.43.0


From a69fe2c95d92326e412cfdc05acae0c8f62f6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:05 +0000
Subject: [PATCH 31/44] fix: adding a node that can't be compared to another
 changes nothing

---
 big/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index de172ee..52bfabe 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -480,8 +480,10 @@ class TopologicalSorter:
         """
         # print(f"{node:3} depends on {dependencies!r}")
 
-        # if any argument isn't hashable, raise before changing anything
-        hash((node, dependencies))
+        # if any argument isn't hashable, or can't be compared
+        # to the nodes it collides with, raise before changing anything
+        for n in dict.fromkeys((node, *dependencies)):
+            n in self.nodes
 
         new_nodes = []
         new_successors = []
-- 
2.43.0


From 56f6da8869ecf1766e86b5737dec0574e38e81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 32/44] fix: a value that can't be compared isn't left in the
 heap

---
 big/heap.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/big/heap.py b/big/heap.py
index 6bf8ad8..bc20bd0 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -62,6 +62,13 @@ class Heap:
         return f"<Heap {id_string} len={len(self._queue)} first={self._queue[0]}>"
 
     def append(self, o):
+        # compare before changing anything.  if o can't be
+        # compared, the heap must not be left with it.
+        i = len(self._queue)
+        while i:
+            i = (i - 1) >> 1
+            if not (o < self._queue[i]):
+                break
         heappush(self._queue, o)
         self._version += 1
 
@@ -78,8 +85,12 @@ class Heap:
         # exhaust i before touching the queue.
         # if iterating over i fails, the heap must not
         # be left with some of the values, un-heapified.
-        self._queue.extend(list(i))
-        heapify(self._queue)
+        # (and if comparing the values fails, it must not
+        # be left with all of them.)
+        i = list(i)
+        queue = self._queue + i
+        heapify(queue)
+        self._queue = queue
         self._version += 1
 
     def remove(self, o):
@@ -98,6 +109,9 @@ class Heap:
         return o
 
     def popleft_and_append(self, o):
+        if len(self._queue) > 1:
+            # if o can't be compared, raise before changing anything.
+            o < self._queue[0]
         o = heapreplace(self._queue, o)
         self._version += 1
         return o
-- 
2.43.0


From 5e5e517db9bfaaa24191ce5b9e5585f5a1633e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 33/44] fix: an empty heap can be printed

---
 big/heap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index bc20bd0..3f9783e 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -59,7 +59,8 @@ class Heap:
 
     def __repr__(self):
         id_string = hex(id(self))[-6:]
-        return f"<Heap {id_string} len={len(self._queue)} first={self._queue[0]}>"
+        first = f" first={self._queue[0]}" if self._queue else ""
+        return f"<Heap {id_string} len={len(self._queue)}{first}>"
 
     def append(self, o):
         # compare before changing anything.  if o can't be
-- 
2.43.0


From 86f0aca444c6edfe2bc918bf5730307d3e6824af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:58 +0000
Subject: [PATCH 34/44] fix: a copy of an outer object gets bound inner classes
 of its own

---
 big/boundinnerclass.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 0c78b07..fbf441e 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -60,11 +60,15 @@ THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 __all__ = ["BoundInnerClass", "UnboundInnerClass"]
 
+import threading
 import weakref
 
+_cache_lock = threading.RLock()
+
 class _Worker(object):
     def __init__(self, cls):
         self.cls = cls
+        self._cache_key = f"<bound inner class {cls.__name__} {id(cls)}>"
 
     def __get__(self, outer, outer_class):
 
@@ -93,6 +97,10 @@ class _Worker(object):
 
         name = self.cls.__name__
 
+        cached = self._cached(outer)
+        if cached is not None:
+            return cached
+
         wrapper_bases = [self.cls]
 
         # Iterate over cls's bases, and look in outer,
@@ -132,18 +140,27 @@ class _Worker(object):
         if multiply_inherit:
             Wrapper.__bases__ = tuple(wrapper_bases)
 
-        # Cache the bound instance in outer's dict.
-        # This also means that future requests for us won't call our
-        # __get__ again, it'll automatically use the cached copy.
+        # Cache the bound class in outer's dict.
         #
         # If another thread cached one for the same class while we were
-        # busy creating ours, use theirs.  (The unbound class is always
-        # the first base of the bound inner class.)
-        cached = outer.__dict__.setdefault(name, Wrapper)
-        if getattr(cached, "__bases__", (None,))[0] is self.cls:
-            return cached
-        outer.__dict__[name] = Wrapper
-        return Wrapper
+        # busy creating ours, use theirs.
+        with _cache_lock:
+            cached = self._cached(outer)
+            if cached is None:
+                cached = Wrapper
+                outer.__dict__[self._cache_key] = (weakref.ref(outer), cached)
+        return cached
+
+    def _cached(self, outer):
+        """
+        Returns the bound class cached in outer's dict, if there is one.
+        """
+        outer_weakref, cached = outer.__dict__.get(self._cache_key, (None, None))
+        # If outer is a copy of another object, its dict is a copy
+        # of that object's dict.  Ignore the classes bound to that object.
+        if (cached is None) or (outer_weakref() is not outer):
+            return None
+        return cached
 
 
 class BoundInnerClass(_Worker):
-- 
2.43.0


From 68292ba41af69bb1297b674174a31dabaf2fd308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:24 +0000
Subject: [PATCH 35/44] fix: scheduling an event doesn't change the caller's
 time object

---
 big/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index b6cbc68..eb754f7 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -292,7 +292,8 @@ class Scheduler:
         """
         with self.regulator.lock:
             if not absolute:
-                time += self.regulator.now()
+                # (+= could change the caller's object.)
+                time = time + self.regulator.now()
             self.event_id_counter += 1
             event = Event(self, o, time, priority, self.event_id_counter)
             self.heap.append(event)
-- 
2.43.0


From 0498223fd6f815d2a6dff4246de10ecee3710301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:03 +0000
Subject: [PATCH 36/44] fix: copy.copy of a heap doesn't share its queue

---
 big/heap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/heap.py b/big/heap.py
index 3f9783e..86c9565 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -82,6 +82,10 @@ class Heap:
         copy._queue = self._queue.copy()
         return copy
 
+    # copy.copy shouldn't share self's queue with the copy.
+    def __copy__(self):
+        return self.copy()
+
     def extend(self, i):
         # exhaust i before touching the queue.
         # if iterating over i fails, the heap must not
-- 
2.43.0


From d3255f9ecffdf5256328bde2c2c207c53f87ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:09 +0000
Subject: [PATCH 37/44] fix: copy.copy of a graph or a view doesn't share its
 state

---
 big/graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 52bfabe..0434127 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -132,6 +132,10 @@ class TopologicalSorter:
             """
             return self.__class__(self.graph, original=self)
 
+        # copy.copy shouldn't share self's state with the copy.
+        def __copy__(self):
+            return self.copy()
+
         def reset(self):
             """
             Resets the view to its initial state,
@@ -588,6 +592,10 @@ class TopologicalSorter:
 
         return clone
 
+    # copy.copy shouldn't share self's state with the copy.
+    def __copy__(self):
+        return self.copy()
+
     def cycle(self):
         """
         Cycle detector.
-- 
2.43.0


From 3af2d142849231e90363b16e164fbe628caf9f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:21 +0000
Subject: [PATCH 38/44] fix: an unterminated quote is reported at the column
 where it starts

---
 big/text.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/big/text.py b/big/text.py
index 483d1f8..bcdc21f 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3386,13 +3386,13 @@ def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quote
 
         line_comment_segments = None
 
-        column_number = info.column_number
+        # where in line the current triplet starts
+        offset = next_offset = 0
 
         leading_quote = segment = trailing_quote = ''
         for leading_quote, segment, trailing_quote in i:
-            # it's easier to proactively add the length, and remove it if we raise
-            length_yielded = len(leading_quote) + len(segment) + len(trailing_quote)
-            column_number += length_yielded
+            offset = next_offset
+            next_offset += len(leading_quote) + len(segment) + len(trailing_quote)
 
             if leading_quote:
                 continue
@@ -3427,18 +3427,19 @@ def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quote
 
         if not line_comment_segments:
             if leading_quote and not trailing_quote:
+                # detab, like LineInfo.clip_leading does
+                column_number = info.column_number
+                column_number += len(info.detab(info.leading + line[:offset])) - len(info.detab(info.leading))
                 if leading_quote not in multiline_quotes:
-                    column_number -= length_yielded
                     raise SyntaxError(f"Line {info.line_number} column {column_number}: unterminated quoted marker {leading_quote}")
                 state = leading_quote
-                starting_pair_for_state = info, line
+                starting_pair_for_state = info.line_number, column_number
 
         yield (info, line)
 
     if state:
-        info, line = starting_pair_for_state
-        column_number -= length_yielded
-        raise SyntaxError(f"Line {info.line_number} column {column_number}: unterminated quoted marker {state}")
+        line_number, column_number = starting_pair_for_state
+        raise SyntaxError(f"Line {line_number} column {column_number}: unterminated quoted marker {state}")
 
 _lines_strip_line_comments = lines_strip_line_comments
 
-- 
2.43.0


From 9608326c86f7191f663bf6dacd5e58c9199956c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 39/44] fix: static_order doesn't leave its view in the graph

---
 big/graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 0434127..3950e09 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -694,10 +694,14 @@ class TopologicalSorter:
         graph's nodes in topological order.
         """
         v = self.view()
-        while v:
-            ready = v.ready()
-            yield from ready
-            v.done(*ready)
+        try:
+            while v:
+                ready = v.ready()
+                yield from ready
+                v.done(*ready)
+        finally:
+            # the graph would keep the view, and keep updating it, forever.
+            v.close()
 
     def print(self, print=print):
         """
-- 
2.43.0


From fbb38755c0708ad22b1009da403e9a725dc73a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 40/44] fix: a view lets go of a done node that is removed

---
 big/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/graph.py b/big/graph.py
index 3950e09..f637d64 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -335,6 +335,7 @@ class TopologicalSorter:
 
             if node in self._done:
                 self._done.remove(node)
+                del self._predecessors[node]
                 return
 
             if node in self._ready:
-- 
2.43.0


From ed66f8106e65a59c429bb58977dde1fd42407d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:10 +0000
Subject: [PATCH 41/44] fix: an event that the log refuses isn't logged

---
 big/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/log.py b/big/log.py
index 57cee10..9023383 100644
--- a/big/log.py
+++ b/big/log.py
@@ -128,9 +128,10 @@ class Log:
         Log an event.  Pass in a string specifying the event.
         """
         t = self.clock() - self.start
+        # if event isn't a string, fail before anything is logged.
+        self.longest_event = max(self.longest_event, len(event))
         self.events.append((t, event, len(self.stack)))
         self.end = t
-        self.longest_event = max(self.longest_event, len(event))
 
     def __iter__(self):
         """
-- 
2.43.0


From 87fd7153cc2d73457a1a30f3d19bd01107a4db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:50 +0000
Subject: [PATCH 42/44] fix: a subsystem whose end can't be logged isn't exited

---
 big/log.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/big/log.py b/big/log.py
index 9023383..fba3fc5 100644
--- a/big/log.py
+++ b/big/log.py
@@ -121,7 +121,12 @@ class Log:
         Exits a logged subsystem.  See Log.enter().
         """
         subsystem = self.stack.pop()
-        self(subsystem + " end")
+        try:
+            self(subsystem + " end")
+        except BaseException:
+            # nothing was logged, so we're still in the subsystem.
+            self.stack.append(subsystem)
+            raise
 
     def __call__(self, event):
         """
-- 
2.43.0


From 1894d0a89c8f7a89a0ca86baf446af232c30f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:33 +0000
Subject: [PATCH 43/44] fix: bound inner classes ask only classes for their
 bases

---
 big/boundinnerclass.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index fbf441e..e5714d5 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -123,11 +123,12 @@ class _Worker(object):
             # a bound inner class we need to inherit from, so just skip it.
             if base.__name__ != name:
                 bound_inner_base = getattr(outer, base.__name__, None)
-                if bound_inner_base:
-                    bases = getattr(bound_inner_base, "__bases__", (None,))
+                # (The attribute may be anything at all, and the truth
+                # value of a class is up to its metaclass.)
+                if isinstance(bound_inner_base, type):
                     # The unbound class is always the first base of
                     # the bound inner class.
-                    if bases[0] == base:
+                    if bound_inner_base.__bases__[:1] == (base,):
                         inherit_from = bound_inner_base
                         multiply_inherit = True
             wrapper_bases.append(inherit_from)
-- 
2.43.0


From 9b9a1d675c896d5903ebf2cc8f772c47c7388019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:20 +0000
Subject: [PATCH 44/44] fix: a class bound under one name and unbound under
 another isn't mixed up

---
 big/boundinnerclass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index e5714d5..3201f19 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -68,7 +68,9 @@ _cache_lock = threading.RLock()
 class _Worker(object):
     def __init__(self, cls):
         self.cls = cls
-        self._cache_key = f"<bound inner class {cls.__name__} {id(cls)}>"
+        # (cls may be decorated twice, to be bound under one name
+        # and unbound under another.)
+        self._cache_key = f"<bound inner class {type(self).__name__} {cls.__name__} {id(cls)}>"
 
     def __get__(self, outer, outer_class):
 
-- 
2.43.0

