From 73d78df2c72df05ba0537647382277f0434ee861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 01/89] fix: Graph.remove_node failed on nodes with a self-loop

---
 mdp/graph/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 7f66e5e..a0c41c8 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -152,8 +152,11 @@ class Graph(object):
             errstr = 'This node is not part of the graph (%s)' % node
             raise GraphException(errstr)
 
-        # remove all edges containing this node
-        for edge in node.get_edges():
+        # remove all edges containing this node (a self-loop is both an
+        # entering and an outgoing edge, and must be removed only once)
+        for edge in node.get_edges_in():
+            self.remove_edge(edge)
+        for edge in node.get_edges_out():
             self.remove_edge(edge)
         # remove the node
         self.nodes.remove(node)
-- 
2.43.0


From b3dafeb8c8fd5e423383f1f9eb31cf344de90eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 02/89] fix: in-place flow concatenation changed the flow (and
 the caller's list) before refusing inconsistent nodes

---
 mdp/linear_flows.py        | 10 +++++++---
 mdp/linear_flows_online.py | 24 +++++++++++++++---------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b07946d..134355b 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -547,15 +547,19 @@ class Flow(object):
 
     def __iadd__(self, other):
         # append other to self
+        flow_copy = list(self.flow)
         if isinstance(other, Flow):
-            self.flow += other.flow
+            flow_copy += other.flow
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy.append(other)
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % (type(other).__name__))
             raise TypeError(err_str)
-        self._check_nodes_consistency(self.flow)
+        # check dimension consistency
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         return self
 
     # public container methods
diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b8543f0..dcadb99 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -304,17 +304,20 @@ class OnlineFlow(mdp.Flow):
 
     def __iadd__(self, other):
         # append other to self
+        flow_copy = list(self.flow)
         if isinstance(other, mdp.Flow):
-            self.flow += other.flow
+            flow_copy += other.flow
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy.append(other)
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
-        self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
+        self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(flow_copy)
         return self
 
     # public container methods
@@ -619,16 +622,19 @@ class CircularOnlineFlow(OnlineFlow):
 
     def __iadd__(self, other):
         # append other to self
+        flow_copy = list(self.flow)
         if isinstance(other, OnlineFlow):
-            self.flow += other.flow
+            flow_copy += other.flow
         elif isinstance(other, mdp.OnlineNode):
-            self.flow.append(other)
+            flow_copy.append(other)
         else:
             err_str = ('can only concatenate OnlineFlow or OnlineNode'
                        ' (not \'%s\') to CircularOnlineFlow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = _deque(flow_copy)
         return self
 
     # public container methods
-- 
2.43.0


From b6bef6dcb9d3b597323927ebd79e7b1590e3b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 03/89] fix: flow slice assignment lost nodes given by an
 iterator; OnlineFlow refused to append a terminal trainable node

---
 mdp/linear_flows.py        | 2 ++
 mdp/linear_flows_online.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 134355b..151a054 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -498,6 +498,8 @@ class Flow(object):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            # the value can be any iterable, also a one-shot iterator
+            value = list(value)
             [self._check_value_type_isnode(item) for item in value]
         else:
             self._check_value_type_isnode(value)
diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index dcadb99..cdcacad 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -255,9 +255,11 @@ class OnlineFlow(mdp.Flow):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
-            [self._check_value_type_is_online_or_nontrainable_node(item) for item in value]
+            # the value can be any iterable, also a one-shot iterator
+            value = list(value)
+            [self._check_value_type_isnode(item) for item in value]
         else:
-            self._check_value_type_is_online_or_nontrainable_node(value)
+            self._check_value_type_isnode(value)
 
         flow_copy = list(self.flow)
         flow_copy[key] = value
-- 
2.43.0


From 833918fe23fbdea11edf6c558a17f162faf47c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 04/89] fix: item assignment, deletion, insertion and
 concatenation of CircularOnlineFlow failed after changing the flow

---
 mdp/linear_flows_online.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index cdcacad..50060dd 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -574,12 +574,28 @@ class CircularOnlineFlow(OnlineFlow):
 
     # private container methods
 
+    def _move_output_node(self, positions):
+        """Adjust the output node after an edit of the flow.
+
+        positions -- old indices of the nodes in the order of the edited flow (None for new nodes)
+        """
+        if self.output_node_idx in positions:
+            self.output_node_idx = positions.index(self.output_node_idx)
+        else:
+            if self.verbose:
+                print('Output node is replaced or deleted! Resetting the output node to the last node.')
+            self.reset_output_node()
+
     def __setitem__(self, key, value):
+        positions = list(range(len(self.flow)))
+        if isinstance(key, slice):
+            value = list(value)
+            positions[key] = [None] * len(value)
+        else:
+            positions[key] = None
         super(CircularOnlineFlow, self).__setitem__(key, value)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
-            print('Output node is replaced! Resetting the output node.')
-            self.reset_output_node()
+        self._move_output_node(positions)
 
     def __getitem__(self, key):
         if isinstance(key, slice):
@@ -591,19 +607,17 @@ class CircularOnlineFlow(OnlineFlow):
             return self.flow[key]
 
     def __delitem__(self, key):
+        positions = list(range(len(self.flow)))
+        del positions[key]
         super(CircularOnlineFlow, self).__delitem__(key)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
-            print('Output node deleted! Resetting the output node to the default last node.')
-            self.reset_output_node()
-        elif self.output_node_idx > key.stop():
-            self.set_output_node(self.output_node_idx - key.stop + key.start)
+        self._move_output_node(positions)
 
     def __add__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
             flow_copy = list(self.flow)
-            flow_copy.append(other)
+            flow_copy += other.flow
             self._check_compatibility(flow_copy)
             self._check_nodes_consistency(flow_copy)
             # if no exception was raised, accept the new sequence
@@ -663,6 +677,3 @@ class CircularOnlineFlow(OnlineFlow):
         self[i:i] = [x]
         self._check_nodes_consistency(self.flow)
         self._check_compatibility(self.flow)
-
-        if self.output_node_idx >= i:
-            self.set_output_node(self.output_node_idx + 1)
-- 
2.43.0


From d6fdf1bea57359096c53d0206aa9d46df5460ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 05/89] fix: CircularOnlineFlow.inverse raised TypeError; out
 of range input/output nodes were accepted

---
 mdp/linear_flows_online.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 50060dd..d65a186 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -542,7 +542,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def _inverse_seq(self, x):
         # Successively invert input data 'x' through all nodes backwards from the output node to the input node.
-        flow = self.flow[:self.output_node_idx]
+        flow = list(self.flow)[:self.output_node_idx + 1]
         for i in range(len(flow) - 1, -1, -1):
             try:
                 x = flow[i].inverse(x)
@@ -552,7 +552,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_input_node(self, node_idx):
         """Set the input node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.flow.rotate(-node_idx)
@@ -560,7 +560,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_output_node(self, node_idx):
         """Set the output node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.output_node_idx = node_idx
-- 
2.43.0


From 36446ef337f3e879b5c4f782d537d0baff269378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 06/89] fix: CircularOnlineFlow.set_stored_input silently
 ignored the input while the input dimension was unset

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index d65a186..cf210b7 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -427,7 +427,7 @@ class CircularOnlineFlow(OnlineFlow):
             if x.shape[-1] != self.flow[0].input_dim:
                 raise CircularOnlineFlowException(
                     "Dimension mismatch! should be %d, given %d" % (self.flow[0].input_dim, x.shape[-1]))
-            self._stored_input = x
+        self._stored_input = x
 
     def get_stored_input(self):
         """return the current stored input"""
-- 
2.43.0


From 226e811bc73a40a9aebf3ea892364349d2f025ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/89] fix: Flow.train failed when None was given as the data
 of an already trained node

---
 mdp/linear_flows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 151a054..dba691a 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -154,8 +154,8 @@ class Flow(object):
             err_str = ("\n! Node %d is training"
                        " but instead of iterable received 'None'." % nodenr)
             raise FlowException(err_str)
-        elif (data_iterable is None) and (not node.is_trainable()):
-            # skip training if node is not trainable
+        elif data_iterable is None:
+            # skip training if node is not trainable or already trained
             return
 
         try:
-- 
2.43.0


From 7cc83d50177b2e5d97483ae3a3654dfd201743e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 08/89] fix: saving nodes, flows and checkpoints with pickle
 protocol 0 (or binary=0) raised TypeError

---
 mdp/linear_flows.py     | 10 ++++------
 mdp/nodes/misc_nodes.py |  4 ++--
 mdp/signal_node.py      |  4 ++--
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index dba691a..285d07f 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -438,8 +438,8 @@ class Flow(object):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
+            # pickles are bytes, whatever the protocol
+            mode = 'wb'
             with open(filename, mode) as flh:
                 _cPickle.dump(self, flh, protocol)
 
@@ -681,10 +681,8 @@ class CheckpointSaveFunction(CheckpointFunction):
         self.filename = filename
         self.proto = protocol
         self.stop_training = stop_training
-        if binary or protocol > 0:
-            self.mode = 'wb'
-        else:
-            self.mode = 'w'
+        # pickles are bytes, so the file is always opened in binary mode
+        self.mode = 'wb'
 
     def __call__(self, node):
         with open(self.filename, self.mode) as fid:
diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index b73b0e6..c5eaaf8 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -725,8 +725,8 @@ class NoiseNode(PreserveDimNode):
             # self.noise_func attribute.
             return real_pickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
+            # pickles are bytes, whatever the protocol
+            mode = 'wb'
             with open(filename, mode) as flh:
                 real_pickle.dump(self, flh, protocol)
 
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 3cec90d..33b538a 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -721,8 +721,8 @@ class Node(with_metaclass(NodeMetaclass, object)):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'wb' if protocol != 0 else 'w'
+            # pickles are bytes, whatever the protocol
+            mode = 'wb'
             with open(filename, mode) as flh:
                 _cPickle.dump(self, flh, protocol)
 
-- 
2.43.0


From dd5490227448ec5de4b529d20fbf50c1810f81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 09/89] fix: BiCheckpointFlow failed when a checkpoint function
 returned None

---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c5e9395..f1508a8 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -607,7 +607,7 @@ class BiCheckpointFlow(BiFlow, mdp.CheckpointFlow):
                              msg_iterables[i_node], stop_messages[i_node])
             if i_node <= len(checkpoints) and checkpoints[i_node] is not None:
                 checkpoint_dict = checkpoints[i_node](self.flow[i_node])
-                if dict:
+                if checkpoint_dict:
                     self.__dict__.update(checkpoint_dict)
             if self.verbose:
                 print("training finished")
-- 
2.43.0


From 3cedbdbe030fa898fff13e089063c24ca1cb70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 10/89] fix: a refused or failing task left the scheduler
 locked; set_task_callable did not accept functions; empty ordered results
 raised IndexError

---
 mdp/parallel/scheduling.py | 59 ++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index db06de5..fcb6837 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -2,7 +2,6 @@
 This module contains the basic classes for task processing via a scheduler.
 """
 from __future__ import print_function
-from builtins import zip
 from builtins import object
 
 import threading
@@ -73,7 +72,7 @@ class OrderedResultContainer(ListResultContainer):
         results = self._results
         self._results = []
         results.sort(key=lambda x: x[1])
-        return list(zip(*results))[0]
+        return tuple(result for (result, _) in results)
 
 
 class TaskCallable(object):
@@ -211,6 +210,8 @@ class Scheduler(object):
         self.result_container = result_container
         self.verbose = verbose
         self._n_open_tasks = 0  # number of tasks that are currently running
+        # errors of failed tasks, reported when the results are collected
+        self._task_errors = []
         # count the number of submitted tasks, also used for the task index
         self._task_counter = 0
         self._lock = threading.Lock()
@@ -248,6 +249,7 @@ class Scheduler(object):
         self._lock.acquire()
         if task_callable is None:
             if self._last_callable is None:
+                self._lock.release()
                 raise Exception("No task_callable specified and " +
                                 "no previous callable available.")
         self._n_open_tasks += 1
@@ -274,6 +276,9 @@ class Scheduler(object):
         task_callable -- Callable that will be used unless a new task_callable
             is given.
         """
+        if task_callable is not None and not hasattr(task_callable, "fork"):
+            # not a TaskCallable (probably a function), so wrap it
+            task_callable = TaskCallableWrapper(task_callable)
         self._lock.acquire()
         self._last_callable = task_callable
         # set _last_callable_index to half value since the callable is newer
@@ -290,7 +295,10 @@ class Scheduler(object):
         This function blocks to avoid any problems during result storage.
         """
         self._lock.acquire()
-        self.result_container.add_result(result, task_index)
+        try:
+            self.result_container.add_result(result, task_index)
+        except Exception as error:
+            self._task_errors.append(error)
         if self.verbose:
             if task_index is not None:
                 print("    finished task no. %d" % task_index)
@@ -299,16 +307,36 @@ class Scheduler(object):
         self._n_open_tasks -= 1
         self._lock.release()
 
+    def _store_error(self, error, task_index):
+        """Store the exception of a failed task instead of its result.
+
+        error -- The exception, it is raised when the results are collected.
+        task_index -- Task index.
+        """
+        self._lock.acquire()
+        self._task_errors.append(error)
+        if self.verbose:
+            print("    task no. %d failed" % task_index)
+        self._n_open_tasks -= 1
+        self._lock.release()
+
     def get_results(self):
         """Get the accumulated results from the result container.
 
-        This method blocks if there are open tasks.
+        This method blocks if there are open tasks. If one of the tasks failed
+        then its exception is raised (once all tasks have ended), and the
+        results of the other tasks are discarded.
         """
         while True:
             self._lock.acquire()
             if self._n_open_tasks == 0:
-                results = self.result_container.get_results()
-                self._lock.release()
+                try:
+                    errors, self._task_errors = self._task_errors, []
+                    results = self.result_container.get_results()
+                finally:
+                    self._lock.release()
+                if errors:
+                    raise errors[0]
                 return results
             else:
                 self._lock.release()
@@ -345,16 +373,23 @@ class Scheduler(object):
         You can override this method for custom schedulers.
 
         Warning: When this method is entered is has the lock, the lock must be
-        released here.
+        released here. If the task is refused with an exception then it must
+        also be removed from _n_open_tasks.
 
         Warning: Note that fork has not been called yet, so the provided
         task_callable must not be called. Only a forked version can be called.
         """
-        # IMPORTANT: always call fork, since it must be called at least once!
-        task_callable = task_callable.fork()
-        result = task_callable(data)
-        # release lock before store_result
-        self._lock.release()
+        try:
+            # IMPORTANT: always call fork, since it must be called at least once!
+            task_callable = task_callable.fork()
+            result = task_callable(data)
+        except Exception:
+            # there will be no result for this task
+            self._n_open_tasks -= 1
+            raise
+        finally:
+            # release lock before store_result
+            self._lock.release()
         self._store_result(result, task_index)
 
     def _shutdown(self):
-- 
2.43.0


From e03dfc0df6edfc3c0ff8c472534995bff4d81147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 11/89] fix: ThreadScheduler did not enforce its thread limit,
 lost its lock when a thread could not be started and blocked forever after a
 failing task

---
 mdp/parallel/thread_schedule.py | 74 +++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 09a4d11..15c6b53 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -52,36 +52,58 @@ class ThreadScheduler(Scheduler):
         It blocks when the maximum number of threads is reached (given by
         n_threads) or when the system is not able to start a new thread.
         """
-        task_started = False
-        while not task_started:
-            if self._n_active_threads >= self._n_threads:
+        try:
+            while self._n_active_threads >= self._n_threads:
                 # release lock for other threads and wait
                 self._lock.release()
                 time.sleep(SLEEP_TIME)
                 self._lock.acquire()
-            else:
-                self._lock.release()
-                task_callable = task_callable.fork()
-                if self.copy_callable:
-                    # create a deep copy of the task_callable,
-                    # since it might not be thread safe 
-                    # (but the fork is still required)
-                    as_str = pickle.dumps(task_callable, -1)
-                    task_callable = pickle.loads(as_str)
-                try:
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(data, task_callable,
-                                                    task_index))
-                    thread.start()
-                    task_started = True
-                except Exception:
-                    if self.verbose:
-                        print ("unable to create new thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            # reserve a thread while we still have the lock
+            self._n_active_threads += 1
+        finally:
+            self._lock.release()
+        try:
+            task_callable = task_callable.fork()
+            if self.copy_callable:
+                # create a deep copy of the task_callable,
+                # since it might not be thread safe
+                # (but the fork is still required)
+                as_str = pickle.dumps(task_callable, -1)
+                task_callable = pickle.loads(as_str)
+        except Exception:
+            # there will be no result for this task
+            self._lock.acquire()
+            self._n_active_threads -= 1
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
+        task_started = False
+        while not task_started:
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(data, task_callable,
+                                                task_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
+
+    def _release_thread(self):
+        """Make room for another thread."""
+        self._lock.acquire()
+        self._n_active_threads -= 1
+        self._lock.release()
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
-        result = task_callable(data)
-        self._store_result(result, task_index)
-        self._n_active_threads -= 1
+        try:
+            result = task_callable(data)
+        except Exception as error:
+            self._release_thread()
+            self._store_error(error, task_index)
+        else:
+            self._release_thread()
+            self._store_result(result, task_index)
-- 
2.43.0


From d5897d33dce660e48bc611dd9db24c4d34564e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 12/89] fix: ProcessScheduler raced when choosing cached
 callables and freeing processes, blocked forever after a failing task and did
 not fork uncached callables

---
 mdp/parallel/process_schedule.py | 96 +++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 39 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index cb99cd2..156c0f2 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -106,32 +106,39 @@ class ProcessScheduler(Scheduler):
         if source_paths is None:
             source_paths = sys.path
         process_args += source_paths
+        self._process_args = process_args
         # list of processes not in use, start the processes now
-        self._free_processes = [subprocess.Popen(args=process_args,
-                                                 stdout=subprocess.PIPE,
-                                                 stdin=subprocess.PIPE)
+        self._free_processes = [self._start_process()
                                 for _ in range(self._n_processes)]
-        # tag each process with its cached callable task_index,
-        # this is compared with _last_callable_index to check if the cached
-        # task_callable is still up to date
-        for process in self._free_processes:
-            process._callable_index = -1
         if self.verbose:
             print ("scheduler initialized with %d processes" %
                    self._n_processes)
 
+    def _start_process(self):
+        """Start and return a slave process."""
+        process = subprocess.Popen(args=self._process_args,
+                                   stdout=subprocess.PIPE,
+                                   stdin=subprocess.PIPE)
+        # tag each process with its cached callable task_index,
+        # this is compared with _last_callable_index to check if the cached
+        # task_callable is still up to date
+        process._callable_index = -1
+        return process
+
     def _shutdown(self):
         """Shut down the slave processes.
 
         If a process is still running a task then an exception is raised.
         """
         self._lock.acquire()
-        if len(self._free_processes) < self._n_processes:
-            raise Exception("some slave process is still working")
-        for process in self._free_processes:
-            pickle.dump("EXIT", process.stdin)
-            process.stdin.flush()
-        self._lock.release()
+        try:
+            if len(self._free_processes) < self._n_processes:
+                raise Exception("some slave process is still working")
+            for process in self._free_processes:
+                pickle.dump("EXIT", process.stdin)
+                process.stdin.flush()
+        finally:
+            self._lock.release()
         if self.verbose:
             print("scheduler shutdown")
 
@@ -141,29 +148,33 @@ class ProcessScheduler(Scheduler):
         It blocks when the system is not able to start a new thread
         or when the processes are all in use.
         """
-        task_started = False
-        while not task_started:
-            if not len(self._free_processes):
+        # the callable might be replaced after the lock has been released
+        callable_index = self._last_callable_index
+        try:
+            while not len(self._free_processes):
                 # release lock for other threads and wait
                 self._lock.release()
                 time.sleep(SLEEP_TIME)
                 self._lock.acquire()
-            else:
-                try:
-                    process = self._free_processes.pop()
-                    self._lock.release()
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(process, data,
-                                                    task_callable, task_index))
-                    thread.start()
-                    task_started = True
-                except thread.error:
-                    if self.verbose:
-                        print ("unable to create new task thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            process = self._free_processes.pop()
+        finally:
+            self._lock.release()
+        task_started = False
+        while not task_started:
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(process, data, task_callable,
+                                                task_index, callable_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new task thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
-    def _task_thread(self, process, data, task_callable, task_index):
+    def _task_thread(self, process, data, task_callable, task_index,
+                     callable_index):
         """Thread function which cares for a single task.
 
         The task is pushed to the process via stdin, then we wait for the
@@ -173,8 +184,8 @@ class ProcessScheduler(Scheduler):
         try:
             if self._cache_callable:
                 # check if the cached callable is up to date
-                if process._callable_index < self._last_callable_index:
-                    process._callable_index = self._last_callable_index
+                if process._callable_index < callable_index:
+                    process._callable_index = callable_index
                 else:
                     task_callable = None
             # push the task to the process
@@ -183,13 +194,19 @@ class ProcessScheduler(Scheduler):
             process.stdin.flush()
             # wait for result to arrive
             result = pickle.load(process.stdout)
-        except:
+        except Exception:
             traceback.print_exc()
+            error = Exception("failed to execute task %d in process" %
+                              task_index)
+            # the state of the process is unknown, so use a new one
+            process.kill()
+            self._free_processes.append(self._start_process())
+            self._store_error(error, task_index)
+        else:
+            # free the process first, so that all processes are free when the
+            # results of the last task are available
             self._free_processes.append(process)
-            sys.exit("failed to execute task %d in process:" % task_index)
-        # store the result and clean up
-        self._store_result(result, task_index)
-        self._free_processes.append(process)
+            self._store_result(result, task_index)
 
 
 def _process_run(cache_callable=True):
@@ -233,6 +250,7 @@ def _process_run(cache_callable=True):
                     task_callable = task_callable.fork()
                 else:
                     task_callable.setup_environment()
+                    task_callable = task_callable.fork()
                 result = task_callable(data)
                 del task_callable  # free memory
                 pickle.dump(result, pickle_out, protocol=-1)
-- 
2.43.0


From ab846153279b86b993871922d4e6cbc6df9d61d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 13/89] fix: forks of NIPALSNode lost their training data,
 forks of VartimeSFANode the time dependence between chunks

---
 mdp/parallel/parallelnodes.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index b0ca7cc..c4d9fc2 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -208,6 +208,29 @@ class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
             self._join_covariance(self._dcov_mtx, forked_node._dcov_mtx)
 
 
+class ParallelVartimeSFANode(ParallelExtensionNode, mdp.nodes.VartimeSFANode):
+    """The time dependence between data chunks does not allow forking."""
+
+    def _fork(self):
+        raise NotForkableParallelException("VartimeSFANode depends on the "
+                                           "order of the data chunks")
+
+
+class ParallelNIPALSNode(ParallelExtensionNode, mdp.nodes.NIPALSNode):
+    """Parallel version of the NIPALSNode.
+
+    In contrast to the PCANode the training data is collected.
+    """
+
+    def _fork(self):
+        return self._default_fork()
+
+    def _join(self, forked_node):
+        """Combine the collected data."""
+        self.data += forked_node.data
+        self.tlen += forked_node.tlen
+
+
 class ParallelFDANode(ParallelExtensionNode, mdp.nodes.FDANode):
 
     def _fork(self):
-- 
2.43.0


From bdc84be95ed29f39504d15c7c325940f2473a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 14/89] fix: RecursiveExpansionNode could not be created with
 an input dimension

---
 mdp/nodes/recursive_expansion_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 1c2e382..fd11e8d 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -500,11 +500,11 @@ class RecursiveExpansionNode(_ExpansionNode):
             Default is None.
         :type dtype: numpy.dtype or str
         """
-        super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
-
+        # the degree is required when the input dimension is set
         self.degree = degree
         self.check = check
         self.with0 = with0
+        super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
         # if in dictionary
         if recf in recfs:
                 # intialises the elements not based on recursion formula
-- 
2.43.0


From 9470def4c6c2cb6e5a057daf045e2168c9937faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 15/89] fix: layers with pretrained nodes counted the finished
 training phases of these nodes

---
 mdp/hinet/layer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 1894d5d..a1ff76c 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -51,6 +51,9 @@ class Layer(mdp.Node):
             self.node_input_dims[index] = node.input_dim
         output_dim = self._get_output_dim_from_nodes()
 
+        # store which nodes are pretrained up to what phase
+        self._pretrained_phase = [node.get_current_train_phase()
+                                  for node in nodes]
         # set layer state
         nodes_is_training = [node.is_training() for node in nodes]
         if mdp.numx.any(nodes_is_training):
@@ -135,11 +138,15 @@ class Layer(mdp.Node):
     def _get_train_seq(self):
         """Return the train sequence.
 
-        The length is set by the node with maximum length.
+        The length is set by the node with the maximum number of training
+        phases that were open when the layer was created.
         """
         max_train_length = 0
-        for node in self.nodes:
-            node_length = len(node._get_train_seq())
+        for i_node, node in enumerate(self.nodes):
+            if not node.is_trainable():
+                continue
+            node_length = (len(node._get_train_seq())
+                           - self._pretrained_phase[i_node])
             if node_length > max_train_length:
                 max_train_length = node_length
         return [[self._train, self._stop_training]] * max_train_length
@@ -308,6 +315,9 @@ class SameInputLayer(Layer):
                 raise mdp.NodeException(err)
         output_dim = self._get_output_dim_from_nodes()
 
+        # store which nodes are pretrained up to what phase
+        self._pretrained_phase = [node.get_current_train_phase()
+                                  for node in nodes]
         # set layer state
         nodes_is_training = [node.is_training() for node in nodes]
         if mdp.numx.any(nodes_is_training):
-- 
2.43.0


From 2e1fcc87759c3e3d6b28141dd6367e6edd4bce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 16/89] fix: FlowNode failed for flows whose output dimension
 cannot be set or differs from the input dimension

---
 mdp/hinet/flownode.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a6a10f7..12b3b3d 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -81,13 +81,12 @@ class FlowNode(mdp.Node):
 
     def _set_output_dim(self, n):
         last_node = self._flow[-1]
-        if len(self._flow) == 1:
-            self._flow[-1].output_dim = n
-        elif last_node.output_dim is None:
-            self._fix_nodes_dimensions()
+        if last_node.output_dim is None:
+            if len(self._flow) > 1:
+                self._fix_nodes_dimensions()
             # check if it worked
             if last_node.output_dim is None:
-                if last_node.input_dim is None:
+                if len(self._flow) > 1 and last_node.input_dim is None:
                     err = ("FlowNode can't set the dimension of the last "
                            "node, because its input_dim is undefined ("
                            "which could lead to inconsistent dimensions).")
@@ -115,6 +114,20 @@ class FlowNode(mdp.Node):
             # additional checks are performed here
             self.output_dim = self._flow[-1].output_dim
 
+    def _check_input(self, x):
+        super(FlowNode, self)._check_input(x)
+        # the default for the output dimension (the input dimension) is not
+        # valid for flows, so find it by following the internal nodes
+        if self.output_dim is None and not self.is_training():
+            prev_dim = self.input_dim
+            for node in self._flow:
+                if node.input_dim is None:
+                    node.input_dim = prev_dim
+                if node.output_dim is None:
+                    node.output_dim = node.input_dim
+                prev_dim = node.output_dim
+            self.output_dim = prev_dim
+
     def _set_dtype(self, t):
         # dtype can not be set for sure in arbitrary flows
         # but here we want to be sure that FlowNode *can*
-- 
2.43.0


From 83fa45aef2b66bde7c6b1ffaa8fdb09b5bb89179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 17/89] fix: ParallelFlow ignored nodenr, stayed in
 training/execution after an error, and failed for iterables of schedulers and
 checkpoint flows without scheduler

---
 mdp/parallel/parallelflows.py | 93 ++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 23 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb2e44..637e0c3 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -207,6 +207,7 @@ class ExecuteResultContainer(OrderedResultContainer):
         excecute_results = super(ExecuteResultContainer, self).get_results()
         flownode_results = ([self._flownode,]
                               + ([None] * (len(excecute_results)-1)))
+        self._flownode = None
         return list(zip(excecute_results, flownode_results))
 
 ### ParallelFlow Class ###
@@ -324,19 +325,19 @@ class ParallelFlow(mdp.Flow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    else:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -374,6 +375,9 @@ class ParallelFlow(mdp.Flow):
                             (not isinstance(scheduler.result_container,
                                             TrainResultContainer))):
                             scheduler.result_container = TrainResultContainer()
+            except Exception:
+                self._abort_parallel(scheduler)
+                raise
             finally:
                 # reset iterable references, which cannot be pickled
                 self._train_data_iterables = None
@@ -407,9 +411,29 @@ class ParallelFlow(mdp.Flow):
             raise ParallelFlowException(err)
         self._train_callable_class = train_callable_class
         self._train_data_iterables = self._train_check_iterables(data_iterables)
-        self._i_train_node = 0
         self._flownode = FlowNode(mdp.Flow(self.flow))
-        self._next_train_phase()
+        self._i_train_node = 0
+        try:
+            self._next_train_phase()
+        except Exception:
+            self._abort_parallel()
+            raise
+
+    def _abort_parallel(self, scheduler=None):
+        """End the parallel training or execution after an error.
+
+        scheduler -- Scheduler whose pending tasks and results are discarded.
+        """
+        self._i_train_node = None
+        self._train_data_iterator = None
+        self._exec_data_iterator = None
+        self._next_task = None
+        if isinstance(scheduler, Scheduler):
+            try:
+                scheduler.get_results()
+            except Exception:
+                # the original error is more relevant
+                pass
 
     def _next_train_phase(self):
         """Find the next phase or node for parallel training.
@@ -427,6 +451,10 @@ class ParallelFlow(mdp.Flow):
                 self._i_train_node += 1
                 continue
             data_iterable = self._train_data_iterables[self._i_train_node]
+            if data_iterable is None:
+                err_str = ("No training data specified for node no. %d." %
+                           (self._i_train_node+1))
+                raise mdp.FlowException(err_str)
             try:
                 self._flownode.fork()
                 # fork successful, prepare parallel training
@@ -570,7 +598,6 @@ class ParallelFlow(mdp.Flow):
                               ExecuteResultContainer):
                 scheduler.result_container = ExecuteResultContainer()
         # do parallel execution
-        self._flownode = FlowNode(mdp.Flow(self.flow))
         try:
             self.setup_parallel_execution(
                                 iterable,
@@ -580,6 +607,9 @@ class ParallelFlow(mdp.Flow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except Exception:
+            self._abort_parallel(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
@@ -609,11 +639,17 @@ class ParallelFlow(mdp.Flow):
         if self.is_parallel_training:
             raise ParallelFlowException("Parallel training is underway.")
         self._execute_callable_class = execute_callable_class
+        nodes = self.flow
+        if nodenr is not None:
+            # the following nodes are not required (and might be untrained)
+            nodes = nodes[:nodenr+1]
+        self._flownode = FlowNode(mdp.Flow(nodes))
         if isinstance(iterable, n.ndarray):
             iterable = [iterable]
         self._exec_data_iterator = iter(iterable)
         first_task = self._create_execute_task()
         if first_task is None:
+            self._abort_parallel()
             errstr = ("The execute data iterator is empty.")
             raise mdp.FlowException(errstr)
         task_data_chunk = first_task[0]
@@ -686,18 +722,11 @@ class ParallelFlow(mdp.Flow):
             The individual results can be the return values of the tasks.
         """
         if self.is_parallel_training:
-            for result in results:
-                # the flownode contains the original nodes
-                self._flownode.join(result)
-            if self.verbose:
-                print ("finished parallel training phase of node no. " +
-                       "%d in parallel flow" % (self._i_train_node+1))
-            self._stop_training_hook()
-            self._flownode.stop_training()
-            self._post_stop_training_hook()
-            if not self.flow[self._i_train_node].is_training():
-                self._i_train_node += 1
-            self._next_train_phase()
+            try:
+                self._use_train_results(results)
+            except Exception:
+                self._abort_parallel()
+                raise
         elif self.is_parallel_executing:
             self._exec_data_iterator = None
             ys = [result[0] for result in results]
@@ -707,6 +736,24 @@ class ParallelFlow(mdp.Flow):
                     if flownode is not None:
                         self._flownode.join(flownode)
             return n.concatenate(ys)
+        else:
+            err = "It seems that there are no results to retrieve."
+            raise ParallelFlowException(err)
+
+    def _use_train_results(self, results):
+        """Join the results of a training phase and start the next phase."""
+        for result in results:
+            # the flownode contains the original nodes
+            self._flownode.join(result)
+        if self.verbose:
+            print ("finished parallel training phase of node no. " +
+                   "%d in parallel flow" % (self._i_train_node+1))
+        self._stop_training_hook()
+        self._flownode.stop_training()
+        self._post_stop_training_hook()
+        if not self.flow[self._i_train_node].is_training():
+            self._i_train_node += 1
+        self._next_train_phase()
 
 
 class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
@@ -725,7 +772,7 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                                      **kwargs)
 
     def train(self, data_iterables, checkpoints, scheduler=None,
-              train_callable_class=FlowTrainCallable,
+              train_callable_class=None,
               overwrite_result_container=True,
               **kwargs):
         """Train all trainable nodes in the flow.
-- 
2.43.0


From 79daaf729ebc604705581b29e44ac192c9361e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 18/89] fix: parallel layers did not fork and join nodes which
 require a fork for execution

---
 mdp/parallel/parallelhinet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index ac95fde..579272e 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -51,7 +51,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
         """Fork or copy all the nodes in the layer to fork the layer."""
         forked_nodes = []
         for node in self.nodes:
-            if node.is_training():
+            if node.is_training() or node.use_execute_fork():
                 forked_nodes.append(node.fork())
             else:
                 forked_nodes.append(node)
@@ -60,7 +60,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
     def _join(self, forked_node):
         """Join the trained nodes from the forked layer."""
         for i_node, layer_node in enumerate(self.nodes):
-            if layer_node.is_training():
+            if layer_node.is_training() or layer_node.use_execute_fork():
                 layer_node.join(forked_node.nodes[i_node])
     
     def use_execute_fork(self):
-- 
2.43.0


From 8e597ba6cefe31994997abac6e07f4bc84431a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 19/89] fix: ParallelBiFlow failed when stop_training returned
 data, for y values of None, after errors and for iterables of schedulers;
 stop messages of checkpoint flows were lost

---
 bimdp/parallel/parallelbiflow.py | 133 +++++++++++++++++++------------
 1 file changed, 81 insertions(+), 52 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index fceac56..b647614 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -39,7 +39,7 @@ class BiFlowTrainCallable(parallel.FlowTrainCallable):
             result = self._flownode.train(x, msg)
             if (result is None) or isinstance(result, dict):
                 break
-            elif (isinstance(result, tuple) and
+            elif (isinstance(result, tuple) and (len(result) == 3) and
                 (result[2] in [1, -1, EXIT_TARGET])):
                 break
             else:
@@ -164,8 +164,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 err = ("A train_callable_class was specified but no scheduler "
                        "was given, so the train_callable_class has no effect.")
                 raise ParallelBiFlowException(err)
-            super(ParallelBiFlow, self).train(data_iterables, msg_iterables,
-                                              stop_messages,
+            super(ParallelBiFlow, self).train(data_iterables,
+                                              msg_iterables=msg_iterables,
+                                              stop_messages=stop_messages,
                                               **kwargs)
         else:
             if train_callable_class is None:
@@ -185,19 +186,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    else:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -221,6 +222,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                         self.use_results(results)
                     # check if we have to switch to next scheduler
                     if ((schedulers is not None) and
+                        (self._i_train_node is not None) and
                         (self._i_train_node > last_trained_node)):
                         # dispose unused schedulers
                         for _ in range(self._i_train_node - last_trained_node):
@@ -235,6 +237,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                                             parallel.TrainResultContainer))):
                             scheduler.result_container = \
                                             parallel.TrainResultContainer()
+            except Exception:
+                self._abort_parallel(scheduler)
+                raise
             finally:
                 # reset remaining iterator references, which cannot be pickled
                 self._train_data_iterator = None
@@ -270,10 +275,10 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             provided. If a scheduler is provided the default class used is
             NodeResultContainer.
         """
-        self._bi_reset()  # normally not required, just for safety
         if self.is_parallel_training:
             err = "Parallel training is already underway."
             raise ParallelBiFlowException(err)
+        self._bi_reset()  # normally not required, just for safety
         self._train_callable_class = train_callable_class
         data_iterables, msg_iterables = self._sanitize_training_iterables(
                                             data_iterables=data_iterables,
@@ -285,7 +290,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         self._stop_messages = stop_messages
         self._flownode = BiFlowNode(BiFlow(self.flow))
         self._i_train_node = 0
-        self._next_train_phase()
+        try:
+            self._next_train_phase()
+        except Exception:
+            self._abort_parallel()
+            raise
+
+    def _abort_parallel(self, scheduler=None):
+        """End the parallel training or execution after an error."""
+        super(ParallelBiFlow, self)._abort_parallel(scheduler)
+        self._train_msg_iterator = None
+        self._exec_msg_iterator = None
+        self._exec_target_iterator = None
+        self._bi_reset()
 
     def _next_train_phase(self):
         """Find the next phase or node for parallel training.
@@ -378,16 +395,22 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         result = self._flownode.stop_training(
                                 self._stop_messages[self._i_train_node])
         self._post_stop_training_hook()
-        if (result is not None) and (not isinstance(result, dict)):
-            if (isinstance(result, tuple) and
-                (result[2] in [1, -1, EXIT_TARGET])):
-                pass
-            else:
+        self._check_stop_result(result)
+        self._bi_reset()
+
+    @staticmethod
+    def _check_stop_result(result):
+        """Check that the target of a stop_training result was found.
+
+        Like in BiFlow it is ok to reach the end of the flow.
+        """
+        if isinstance(result, tuple) and len(result) == 3:
+            # values of +1, -1 and EXIT_TARGET are tolerated
+            if result[2] not in [1, -1, EXIT_TARGET]:
                 err = ("Target node not found in flow during " +
                        "stop_training phase, last result: " +
                        str(result))
                 raise BiFlowException(err)
-        self._bi_reset()
 
     def _create_train_task(self):
         """Create and return a single training task without callable.
@@ -448,7 +471,6 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                               parallel.ExecuteResultContainer):
                 scheduler.result_container = parallel.ExecuteResultContainer()
         # do parallel execution
-        self._flownode = BiFlowNode(BiFlow(self.flow))
         try:
             self.setup_parallel_execution(
                                 iterable=iterable,
@@ -459,6 +481,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except Exception:
+            self._abort_parallel(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
@@ -485,10 +510,11 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             was provided. If a scheduler is provided the default class used is
             NodeResultContainer.
         """
-        self._bi_reset()  # normally not required, just for safety
         if self.is_parallel_training:
             raise ParallelBiFlowException("Parallel training is underway.")
+        self._bi_reset()  # normally not required, just for safety
         self._execute_callable_class = execute_callable_class
+        self._flownode = BiFlowNode(BiFlow(self.flow))
         iterable, msg_iterable, target_iterable = self._sanitize_iterables(
                                                            iterable,
                                                            msg_iterable,
@@ -498,6 +524,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         self._exec_target_iterator = iter(target_iterable)
         first_task = self._create_execute_task()
         if first_task is None:
+            self._abort_parallel()
             err = ("The execute data iterable is empty.")
             raise mdp.FlowException(err)
         task_data_chunk = first_task[0]
@@ -537,36 +564,18 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             The individual results can be the return values of the tasks.
         """
         if self.is_parallel_training:
-            for result in results:
-                self._flownode.join(result)
-            # perform local stop_training with result check
-            self._stop_training_hook()
-            result = self._flownode.stop_training(
-                                    self._stop_messages[self._i_train_node])
-            self._post_stop_training_hook()
-            if (result is not None):
-                target = result[2]
-                # values of +1, -1 and EXIT_TARGET are tolerated
-                if target not in [1, -1, EXIT_TARGET]:
-                    err = ("Target node not found in flow during " +
-                           "stop_training phase, last result: " +
-                           str(result))
-                    raise BiFlowException(err)
-            self._flownode.bi_reset()
-            if self.verbose:
-                print ("finished parallel training phase of node no. " +
-                       "%d in parallel flow" % (self._i_train_node+1))
-            if not self.flow[self._i_train_node].is_training():
-                self._i_train_node += 1
-            self._next_train_phase()
+            try:
+                self._use_train_results(results)
+            except Exception:
+                self._abort_parallel()
+                raise
         elif self.is_parallel_executing:
             self._exec_data_iterator = None
             self._exec_msg_iterator = None
             self._exec_target_iterator = None
             y_results = []
+            n_none_results = 0
             msg_results = MessageResultContainer()
-            # use internal flownode to join all biflownodes
-            self._flownode = BiFlowNode(BiFlow(self.flow))
             for result_tuple in results:
                 result, forked_biflownode = result_tuple
                 # consolidate results
@@ -576,24 +585,43 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 else:
                     y = result
                 if y is not None:
-                    try:
-                        y_results.append(y)
-                    except:
-                        err = "Some but not all y return values were None."
-                        raise BiFlowException(err)
+                    y_results.append(y)
                 else:
-                    y_results = None
-                # join biflownode
+                    n_none_results += 1
+                # use internal flownode to join all biflownodes
                 if forked_biflownode is not None:
                     self._flownode.join(forked_biflownode)
+            if y_results and n_none_results:
+                err = "Some but not all y return values were None."
+                raise BiFlowException(err)
             # return results
-            if y_results is not None:
+            if y_results:
                 y_results = n.concatenate(y_results)
+            else:
+                y_results = None
             return (y_results, msg_results.get_message())
         else:
             err = "It seems that there are no results to retrieve."
             raise BiFlowException(err)
 
+    def _use_train_results(self, results):
+        """Join the results of a training phase and start the next phase."""
+        for result in results:
+            self._flownode.join(result)
+        # perform local stop_training with result check
+        self._stop_training_hook()
+        result = self._flownode.stop_training(
+                                self._stop_messages[self._i_train_node])
+        self._post_stop_training_hook()
+        self._check_stop_result(result)
+        self._flownode.bi_reset()
+        if self.verbose:
+            print ("finished parallel training phase of node no. " +
+                   "%d in parallel flow" % (self._i_train_node+1))
+        if not self.flow[self._i_train_node].is_training():
+            self._i_train_node += 1
+        self._next_train_phase()
+
 
 class ParallelCheckpointBiFlow(mdp.parallel.ParallelCheckpointFlow,
                                ParallelBiFlow, BiCheckpointFlow):
@@ -623,6 +651,7 @@ class ParallelCheckpointBiFlow(mdp.parallel.ParallelCheckpointFlow,
                         train_callable_class=train_callable_class,
                         overwrite_result_container=overwrite_result_container,
                         msg_iterables=msg_iterables,
+                        stop_messages=stop_messages,
                         **kwargs)
 
     def setup_parallel_training(self, data_iterables, checkpoints,
-- 
2.43.0


From 1f9a524b7ab10954e75ce229ce422f412a57f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 20/89] fix: BiFlow.execute returned False instead of None when
 there is no output array

---
 bimdp/biflow.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index f1508a8..74e79a9 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -357,6 +357,9 @@ class BiFlow(mdp.Flow):
         # consolidate results
         if y_results:
             y_results = n.concatenate(y_results)
+        else:
+            # all the y return values were None
+            y_results = None
         result_msg = msg_results.get_message()
         return y_results, result_msg
 
-- 
2.43.0


From 3b71f2c26d77eda298a11b179c59e50ab5ae9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 21/89] fix: forks of BiFlowNode lost the node_id; switching
 CloneBiLayer back to a single instance raised AttributeError

---
 bimdp/hinet/bilayer.py            |  4 ----
 bimdp/parallel/parallelbihinet.py | 15 +++++++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index c8d3e28..afe0484 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -80,10 +80,6 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
                 err = ("Calling switch_to_instance during training will "
                        "probably result in lost training data.")
                 raise CloneBiLayerException(err)
-            elif self.is_bi_training():
-                err = ("Calling switch_to_instance during bi_learning will "
-                       "probably result in lost learning data.")
-                raise CloneBiLayerException(err)
             self.node = self.nodes[0]
             self.nodes = [self.node] * len(self.nodes)
 
diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index c32ad76..77a4aef 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -4,7 +4,17 @@ Parallel version of bihinet.
 from builtins import range
 
 import mdp
-from bimdp.hinet import CloneBiLayer
+from bimdp.hinet import BiFlowNode, CloneBiLayer
+
+
+class ParallelBiFlowNode(BiFlowNode, mdp.parallel.ParallelFlowNode):
+    """Parallel version of BiFlowNode, which preserves the node_id."""
+
+    def _fork(self):
+        forked_node = mdp.parallel.ParallelFlowNode._fork(self)
+        forked_node._node_id = self._node_id
+        forked_node._stop_result = self._stop_result
+        return forked_node
 
 
 class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
@@ -35,9 +45,6 @@ class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
             if self.is_training():
                 for forked_node in self.nodes[1:]:
                     self.nodes[0].join(forked_node)
-            elif self.is_bi_training():
-                for forked_node in self.nodes[1:]:
-                    self.nodes[0].bi_join(forked_node)
             self.node = self.nodes[0]
             self.nodes = (self.node,) * len(self.nodes)
 
-- 
2.43.0


From cc2498718b2ca14798ae472b31550a4c1f61002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 22/89] fix: flows modified the messages given by the caller

---
 bimdp/biflow.py           | 5 ++++-
 bimdp/hinet/biflownode.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 74e79a9..f17843c 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -252,7 +252,8 @@ class BiFlow(mdp.Flow):
         if stop_msg is None:
             result = self.flow[nodenr].stop_training()
         else:
-            result = self.flow[nodenr].stop_training(stop_msg)
+            # the node may modify the msg
+            result = self.flow[nodenr].stop_training(stop_msg.copy())
         if result is None:
             # the training phase ends here without an execute phase
             return
@@ -528,6 +529,8 @@ class BiFlow(mdp.Flow):
         current msg is simply carried forward around it.
         """
         ## this method is also used by other classes, like BiFlowNode
+        if msg is not None:
+            msg = msg.copy()  # nodes may modify the msg of the caller
         while i_node != stop_at_node:
             if isinstance(self.flow[i_node], BiNode):
                 result = self.flow[i_node].execute(x, msg)
diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 78d2dd2..a3315d8 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -184,6 +184,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         # BiFlow._train_node_single_phase.
         def _stop_training(msg=None):
             if isinstance(self._flow[nodenr], BiNode):
+                if msg is not None:
+                    msg = msg.copy()  # the node may modify the msg
                 result = self._flow[nodenr].stop_training(msg)
             else:
                 # for a non-bi Node the msg is dropped
-- 
2.43.0


From 0b4e0cd888b8a7a887552265e3caa475492aefe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 23/89] fix: BiFlow.train required data or messages for already
 trained nodes

---
 bimdp/biflow.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index f17843c..3b82c43 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -158,6 +158,9 @@ class BiFlow(mdp.Flow):
         """
         if not self.flow[nodenr].is_trainable():
             return
+        if not self.flow[nodenr].is_training():
+            # no training data is required for trained nodes
+            return
         iterable, msg_iterable, _ = self._sanitize_iterables(iterable,
                                                              msg_iterable)
         while True:
-- 
2.43.0


From 5629138038856882fed717546e6209c761a0ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 24/89] fix: deactivating extensions did not restore the
 original attributes; failed activations affected other extensions

---
 mdp/extension.py | 89 +++++++++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 21f765d..4d14e01 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -66,6 +66,9 @@ _TEARDOWN_FUNC_ATTR = "_extension_teardown"
 _extensions = dict()
 # set containing the names of the currently activated extensions
 _active_extensions = set()
+# the attributes defined by the node classes themselves that are currently
+# overwritten by extensions: {(node class, attribute name): value in __dict__}
+_overwritten_attributes = dict()
 
 
 class ExtensionException(MDPException):
@@ -293,6 +296,21 @@ def get_active_extensions():
     # value is used in a for-loop (see deactivate_extensions function)
     return list(_active_extensions)
 
+def _get_original_attribute(node_cls, attr_name):
+    """Return the attribute as it is defined without any extension.
+
+    The value is taken directly from the __dict__ of the class which defines
+    the attribute (so e.g. a staticmethod stays a staticmethod). It is returned
+    in a list, which is empty if there is no such attribute without extensions.
+    """
+    for base in node_cls.__mro__:
+        if (base, attr_name) in _overwritten_attributes:
+            return [_overwritten_attributes[(base, attr_name)]]
+        if (attr_name in base.__dict__ and
+            _EXTENSION_ATTR_PREFIX + attr_name not in base.__dict__):
+            return [base.__dict__[attr_name]]
+    return []
+
 def activate_extension(extension_name, verbose=False):
     """Activate the extension by injecting the extension methods."""
     if extension_name not in list(_extensions.keys()):
@@ -324,10 +342,12 @@ def activate_extension(extension_name, verbose=False):
                                + "' and newly activated extension '" +
                                extension_name + "'.")
                         raise ExtensionException(err)
-                    # only overwrite the attribute if the extension is not
-                    # yet active on this class or its superclasses
-                    if ext_attr_name not in dir(node_cls):
-                        original_attr = getattr(node_cls, attr_name)
+                    if attr_name in node_cls.__dict__:
+                        # must be restored when the extension is deactivated
+                        _overwritten_attributes[(node_cls, attr_name)] = \
+                                                node_cls.__dict__[attr_name]
+                    for original_attr in _get_original_attribute(node_cls,
+                                                                 attr_name):
                         if verbose:
                             print ("extension %s: overwriting %s in %s" %
                                 (extension_name, attr_name, node_cls.__name__))
@@ -354,54 +374,46 @@ def deactivate_extension(extension_name, verbose=False):
             continue
         for attr_name in list(attributes.keys()):
             original_name = ORIGINAL_ATTR_PREFIX + attr_name
+            ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
+            if node_cls.__dict__.get(ext_attr_name) != extension_name:
+                # this attribute has not been injected (e.g. because the
+                # activation failed) or belongs to another extension
+                continue
             if verbose:
                 print ("extension %s: removing %s from %s" %
                        (extension_name, attr_name, node_cls.__name__))
+            delattr(node_cls, attr_name)
+            delattr(node_cls, ext_attr_name)
             if original_name in node_cls.__dict__:
-                # restore the original attribute
+                delattr(node_cls, original_name)
+            if (node_cls, attr_name) in _overwritten_attributes:
+                # restore the original attribute, inherited attributes do not
+                # have to be restored
                 if verbose:
                     print ("extension %s: restoring %s in %s" %
                            (extension_name, attr_name, node_cls.__name__))
-                delattr(node_cls, attr_name)
-                original_attr = getattr(node_cls, original_name)
-                # Check if the attribute is defined by one of the super
-                # classes and test if the overwritten method is not that
-                # method, otherwise we would inject unwanted methods.
-                # Note: '==' tests identity for .__func__ and .__self__,
-                #    but .im_class does not matter in Python 2.6.
-                if all([getattr(x, attr_name, None) !=
-                           original_attr for x in node_cls.__mro__[1:]]):
-                    setattr(node_cls, attr_name, original_attr)
-                delattr(node_cls, original_name)
-            else:
-                try:
-                    # no original attribute to restore, so simply delete
-                    # might be missing if the activation failed
-                    delattr(node_cls, attr_name)
-                except AttributeError:
-                    pass
-            try:
-                # might be missing if the activation failed
-                delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
-            except AttributeError:
-                pass
-    if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
-        _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
-    _active_extensions.remove(extension_name)
+                setattr(node_cls, attr_name,
+                        _overwritten_attributes.pop((node_cls, attr_name)))
+    try:
+        if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
+            _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
+    finally:
+        _active_extensions.remove(extension_name)
 
 def activate_extensions(extension_names, verbose=False):
     """Activate all the extensions for the given names.
 
     extension_names -- Sequence of extension names.
     """
+    already_active = get_active_extensions()
     try:
         for extension_name in extension_names:
             activate_extension(extension_name, verbose=verbose)
     except:
-        # if something goes wrong deactivate all, otherwise we might be
-        # in an inconsistent state (e.g. methods for active extensions might
-        # have been removed)
-        deactivate_extensions(get_active_extensions())
+        # if something goes wrong deactivate all the extensions which have
+        # been activated here
+        deactivate_extensions([name for name in get_active_extensions()
+                               if name not in already_active])
         raise
 
 def deactivate_extensions(extension_names, verbose=False):
@@ -475,13 +487,14 @@ class extension(object):
         if isinstance(ext_names, __builtins__['str']):
             ext_names = [ext_names]
         self.ext_names = ext_names
+        # one entry for each time the context was entered (it can be nested)
         self.deactivate_exts = []
 
     def __enter__(self):
         already_active = get_active_extensions()
-        self.deactivate_exts = [ext_name for ext_name in self.ext_names
-                                if ext_name not in already_active]
         activate_extensions(self.ext_names)
+        self.deactivate_exts.append([ext_name for ext_name in self.ext_names
+                                     if ext_name not in already_active])
 
     def __exit__(self, type, value, traceback):
-        deactivate_extensions(self.deactivate_exts)
+        deactivate_extensions(self.deactivate_exts.pop())
-- 
2.43.0


From 13e779ab4446756e509b7dd896fae934cf858816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 25/89] fix: caching skipped nodes deriving from specific
 nodes, kept old selections and the training of nodes open, and failed without
 cache directory

---
 mdp/caching/caching_extension.py | 22 ++++++++++++----------
 mdp/signal_node.py               | 10 +++++++---
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index fcb24b8..c7dd501 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -99,7 +99,8 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
         # add to global dictionary
         global _cached_instances
         if active:
-            _cached_instances.append(self)
+            if self not in _cached_instances:
+                _cached_instances.append(self)
         else:
             if self in _cached_instances:
                 _cached_instances.remove(self)
@@ -113,13 +114,15 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
             return self._non_extension_execute(x, *args, **kwargs)
 
         if self not in _cached_methods:
-            global _memory
+            if _memory is None:
+                set_cachedir()
             _cached_methods[self] = _memory.cache(
                 self._non_extension_execute.__func__)
-            # execute pre-execution checks once so that all automatic
-            # settings of things like dtype and input_dim are done, and
-            # caching begins from first execution, not the second
-            self._pre_execution_checks(x)
+
+        # execute the pre-execution checks so that all automatic settings of
+        # things like dtype and input_dim and the end of the training are
+        # done before the state of the node is compared with the cache
+        self._pre_execution_checks(x)
 
         return _cached_methods[self](self, x, *args, **kwargs)
 
@@ -155,10 +158,9 @@ def activate_caching(cachedir=None,
     _cache_active_global = (cache_classes is None and cache_instances is None)
 
     # active cache for specific classes and instances
-    if cache_classes is not None:
-        _cached_classes = list(cache_classes)
-    if cache_instances is not None:
-        _cached_instances = list(cache_instances)
+    _cached_classes = list(cache_classes) if cache_classes is not None else []
+    _cached_instances = (list(cache_instances) if cache_instances is not None
+                         else [])
 
     activate_extension('cache_execute')
 
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 33b538a..14b43b3 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -90,13 +90,17 @@ class NodeMetaclass(type):
             if recursed:
                 undec_pubmethod = orig_pubmethod._undecorated_
                 priv_info.update(NodeMetaclass._get_infos(undec_pubmethod))
-                wrapper_method = cls._wrap_function(undec_pubmethod,
-                                                    priv_info)
+                # look up the method in the same place as the first wrapper
+                # does (it can be modified by extensions)
+                wrapped_cls = orig_pubmethod._wrapped_class_
+                wrapper_method = cls._wrap_method(priv_info, wrapped_cls)
                 wrapper_method._undecorated_ = undec_pubmethod
             else:
                 priv_info.update(NodeMetaclass._get_infos(orig_pubmethod))
-                wrapper_method = cls._wrap_method(priv_info, new_cls)
+                wrapped_cls = new_cls
+                wrapper_method = cls._wrap_method(priv_info, wrapped_cls)
                 wrapper_method._undecorated_ = orig_pubmethod
+            wrapper_method._wrapped_class_ = wrapped_cls
 
             setattr(new_cls, wrapper_name, wrapper_method)
         return new_cls
-- 
2.43.0


From 12b144be2ebd0d2fba33929103367cb7de82e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:22 +0000
Subject: [PATCH 26/89] fix: NormalizingRecursiveExpansionNode modified the
 data of the caller and could not be pickled after training

---
 mdp/nodes/recursive_expansion_nodes.py | 50 ++++++++++++++------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index fd11e8d..652893a 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -690,7 +690,7 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             be along the first axis, variables along the second.
         :type x: numpy.ndarray
         """
-        self.domain_transformation(x)
+        x = self.domain_transformation(x)
         return super(NormalizingRecursiveExpansionNode, self)._execute(x)
 
     def _train(self, x):
@@ -732,30 +732,27 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             than the ones already supplied during training.
         """
 
+        # the transformation is x -> (x - shift) * scale + offset
+        self._shift = 0.
+        self._scale = 1.
+        self._offset = 0.
+
         # the following conditionals go through different domain types
         if self.lower is None or self.upper is None:
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf') and self.upper == float('Inf'):
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf'):
             self.diff = self.amaxcolumn-self.upper
             self.diff = self.diff.clip(min=0)
-
-            def f(x):
-                x -= self.diff
-                return x
+            self._shift = self.diff
 
         elif self.upper == float('Inf'):
             self.diff = self.amincolumn-self.lower
             self.diff = self.diff.clip(max=0)
-
-            def f(x):
-                x -= self.diff
-                return x
+            self._shift = self.diff
         else:
             mean = self.lower+(self.upper-self.lower)/2.0
             dev = (self.upper-self.lower)
@@ -767,18 +764,25 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             datamean = (xmax+xmin)/2.
 
             if (xmax < self.upper) and (xmin > self.lower):
-                def f(x):
-                    return x
+                pass
             elif datamaxdev < dev:
-                def f(x):
-                    x += (-datamean)+mean
-                    return x
+                self._shift = datamean
+                self._offset = mean
             else:
-                def f(x):
-                    x += (-datamean)+mean*datamaxdev/dev
-                    x *= dev/datamaxdev
-                    return x
-        self.domain_transformation = f
+                self._shift = datamean
+                self._scale = dev/datamaxdev
+                self._offset = mean
+
+    def domain_transformation(self, x):
+        """Return the data transformed to the domain of the expansions.
+
+        :param x: The data to be transformed.
+        :type x: numpy.ndarray
+
+        :returns: The transformed data.
+        :rtype: numpy.ndarray
+        """
+        return (x-self._shift)*self._scale+self._offset
 
     @staticmethod
     def is_trainable():
-- 
2.43.0


From 5ed76a1dd85347f22dec790f950b52e696cf001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:22 +0000
Subject: [PATCH 27/89] fix: HitParadeNode and the scikits nodes could not be
 pickled

---
 mdp/nodes/__init__.py      | 4 +++-
 mdp/nodes/scikits_nodes.py | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/__init__.py b/mdp/nodes/__init__.py
index b2ced40..cc1a849 100644
--- a/mdp/nodes/__init__.py
+++ b/mdp/nodes/__init__.py
@@ -32,7 +32,9 @@ from .recursive_expansion_nodes import (RecursiveExpansionNode,
                                         NormalizingRecursiveExpansionNode)
 
 # import internals for use in test_suites
-from .misc_nodes import OneDimensionalHitParade as _OneDimensionalHitParade
+from .misc_nodes import OneDimensionalHitParade
+# private alias, the class itself must be accessible for pickle
+_OneDimensionalHitParade = OneDimensionalHitParade
 from .expansion_nodes import expanded_dim as _expanded_dim
 
 from .mca_nodes_online import MCANode
diff --git a/mdp/nodes/scikits_nodes.py b/mdp/nodes/scikits_nodes.py
index e7c04b8..2a64e75 100644
--- a/mdp/nodes/scikits_nodes.py
+++ b/mdp/nodes/scikits_nodes.py
@@ -282,7 +282,8 @@ def wrap_scikits_classifier(scikits_class):
             return ['float32', 'float64']
 
     # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
     # change the docstring of the methods to match the ones in sklearn
@@ -383,7 +384,8 @@ def wrap_scikits_transformer(scikits_class):
             return ['float32', 'float64']
 
     # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
     # change the docstring of the methods to match the ones in sklearn
@@ -477,7 +479,8 @@ def wrap_scikits_predictor(scikits_class):
             return ['float32', 'float64']
 
     # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
     # change the docstring of the methods to match the ones in sklearn
-- 
2.43.0


From b8b409da66fabde75aa983c327666ae7a9f59932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 28/89] fix: layers and flow nodes with unknown output
 dimension were trained or sized wrongly, CloneLayer dropped extra arguments,
 FlowNode.copy changed the original

---
 mdp/hinet/flownode.py     | 31 +++++++++---------
 mdp/hinet/layer.py        | 66 ++++++++++++++++++++++-----------------
 mdp/hinet/layer_online.py | 12 +++++++
 mdp/signal_node.py        |  9 ++++--
 mdp/signal_node_online.py |  4 +--
 5 files changed, 74 insertions(+), 48 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 12b3b3d..dcb5931 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -114,19 +114,16 @@ class FlowNode(mdp.Node):
             # additional checks are performed here
             self.output_dim = self._flow[-1].output_dim
 
-    def _check_input(self, x):
-        super(FlowNode, self)._check_input(x)
-        # the default for the output dimension (the input dimension) is not
-        # valid for flows, so find it by following the internal nodes
-        if self.output_dim is None and not self.is_training():
-            prev_dim = self.input_dim
-            for node in self._flow:
-                if node.input_dim is None:
-                    node.input_dim = prev_dim
-                if node.output_dim is None:
-                    node.output_dim = node.input_dim
-                prev_dim = node.output_dim
-            self.output_dim = prev_dim
+    def _set_default_output_dim(self):
+        """Find the output_dim by following the internal nodes."""
+        prev_dim = self.input_dim
+        for node in self._flow:
+            if node.input_dim is None:
+                node.input_dim = prev_dim
+            if node.output_dim is None:
+                node._set_default_output_dim()
+            prev_dim = node.output_dim
+        self.output_dim = prev_dim
 
     def _set_dtype(self, t):
         # dtype can not be set for sure in arbitrary flows
@@ -209,13 +206,15 @@ class FlowNode(mdp.Node):
         #    result of _get_train_seq).
         #
         # copy the nodes by delegation
-        old_nodes = self._flow[:]
+        old_nodes = self._flow.flow
         new_nodes = [node.copy() for node in old_nodes]
         # now copy the rest of this flownode via deepcopy
         self._flow.flow = None
-        new_flownode = _copy.deepcopy(self)
+        try:
+            new_flownode = _copy.deepcopy(self)
+        finally:
+            self._flow.flow = old_nodes
         new_flownode._flow.flow = new_nodes
-        self._flow.flow = old_nodes
         return new_flownode
 
     ## container methods ##
diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index a1ff76c..00241cb 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -169,21 +169,40 @@ class Layer(mdp.Node):
         if self.output_dim is None:
             self.output_dim = self._get_output_dim_from_nodes()
 
-    def _pre_execution_checks(self, x):
-        """Make sure that output_dim is set and then perform normal checks."""
+    def _check_input(self, x):
+        """Perform the normal checks and make sure that output_dim is set."""
+        super(Layer, self)._check_input(x)
+        # the layer must be trained before the nodes are prepared for the
+        # execution, otherwise they would be trained here
+        if self.output_dim is None and not self.is_training():
+            self._set_output_dim_from_input(x)
+
+    def _set_output_dim_from_input(self, x):
+        """Prepare the nodes for the execution and set the output_dim."""
+        # first make sure that the output_dim is set for all nodes
+        for node, node_x in zip(self.nodes, self._split_input(x)):
+            node._pre_execution_checks(node_x)
+        self.output_dim = self._get_output_dim_from_nodes()
         if self.output_dim is None:
-            # first make sure that the output_dim is set for all nodes
-            in_start = 0
-            in_stop = 0
-            for node in self.nodes:
-                in_start = in_stop
-                in_stop += node.input_dim
-                node._pre_execution_checks(x[:, in_start:in_stop])
-            self.output_dim = self._get_output_dim_from_nodes()
-            if self.output_dim is None:
-                err = "output_dim must be set at this point for all nodes"
-                raise mdp.NodeException(err)
-        super(Layer, self)._pre_execution_checks(x)
+            err = "output_dim must be set at this point for all nodes"
+            raise mdp.NodeException(err)
+
+    def _split_input(self, x):
+        """Return a list with the part of x for each node."""
+        parts = []
+        in_stop = 0
+        for node in self.nodes:
+            in_start = in_stop
+            in_stop += node.input_dim
+            parts.append(x[:, in_start:in_stop])
+        return parts
+
+    def _set_default_output_dim(self):
+        """Use the default output_dim for those nodes where it is unknown."""
+        for node in self.nodes:
+            if node.output_dim is None:
+                node._set_default_output_dim()
+        self.output_dim = self._get_output_dim_from_nodes()
 
     def _execute(self, x, *args, **kwargs):
         """Process the data through the internal nodes."""
@@ -278,13 +297,13 @@ class CloneLayer(Layer):
     def _execute(self, x, *args, **kwargs):
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
-        y = self.node.execute(x)
+        y = self.node.execute(x, *args, **kwargs)
         return y.reshape(n_samples, self.output_dim)
 
     def _inverse(self, x, *args, **kwargs):
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.output_dim, self.node.output_dim)
-        y = self.node.inverse(x)
+        y = self.node.inverse(x, *args, **kwargs)
         return y.reshape(n_samples, self.input_dim)
 
 
@@ -342,18 +361,9 @@ class SameInputLayer(Layer):
             if node.is_training():
                 node.train(x, *args, **kwargs)
 
-    def _pre_execution_checks(self, x):
-        """Make sure that output_dim is set and then perform nromal checks."""
-        if self.output_dim is None:
-            # first make sure that the output_dim is set for all nodes
-            for node in self.nodes:
-                node._pre_execution_checks(x)
-            self.output_dim = self._get_output_dim_from_nodes()
-            if self.output_dim is None:
-                err = "output_dim must be set at this point for all nodes"
-                raise mdp.NodeException(err)
-        # intentionally use MRO above Layer, not SameInputLayer
-        super(Layer, self)._pre_execution_checks(x)
+    def _split_input(self, x):
+        """Return a list with the input for each node, which is always x."""
+        return [x] * len(self.nodes)
 
     def _execute(self, x, *args, **kwargs):
         """Process the data through the internal nodes."""
diff --git a/mdp/hinet/layer_online.py b/mdp/hinet/layer_online.py
index 9911284..09a2332 100644
--- a/mdp/hinet/layer_online.py
+++ b/mdp/hinet/layer_online.py
@@ -88,6 +88,18 @@ class OnlineLayer(Layer, mdp.OnlineNode):
                 node.numx_rng = rng
         self._numx_rng = rng
 
+    def _pre_execution_checks(self, x):
+        """Make sure that output_dim is set and then perform normal checks."""
+        if self.output_dim is None:
+            # if training has not started yet, assume we want to train the layer
+            if (self.get_current_train_phase() == 0) and not self._train_phase_started:
+                self.train(x)
+            self._check_input(x)
+            if self.output_dim is None:
+                # the training of online layers stays open
+                self._set_output_dim_from_input(x)
+        super(OnlineLayer, self)._pre_execution_checks(x)
+
     def _get_train_seq(self):
         """Return the train sequence.
            Use OnlineNode train_seq not Layer's
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 14b43b3..251d75a 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -536,7 +536,12 @@ class Node(with_metaclass(NodeMetaclass, object)):
 
         # set the output dimension if necessary
         if self.output_dim is None:
-            self.output_dim = self.input_dim
+            self._set_default_output_dim()
+
+    def _set_default_output_dim(self):
+        """Set the output dimension if it is still unknown in the execution
+        or inversion phase. By default it is the input dimension."""
+        self.output_dim = self.input_dim
 
     def _pre_inversion_checks(self, y):
         """This method contains all pre-inversion checks.
@@ -555,7 +560,7 @@ class Node(with_metaclass(NodeMetaclass, object)):
                 errstr = ("Number of input dimensions undefined. Inversion"
                           "not possible.")
                 raise NodeException(errstr)
-            self.output_dim = self.input_dim
+            self._set_default_output_dim()
 
         # control the dimension of y
         self._check_output(y)
diff --git a/mdp/signal_node_online.py b/mdp/signal_node_online.py
index 5582a66..f382321 100644
--- a/mdp/signal_node_online.py
+++ b/mdp/signal_node_online.py
@@ -190,7 +190,7 @@ class OnlineNode(Node):
 
         # set the output dimension if necessary
         if self.output_dim is None:
-            self.output_dim = self.input_dim
+            self._set_default_output_dim()
 
     # The stop-training operation is removed to support continual training
     # and inversion phases.
@@ -209,7 +209,7 @@ class OnlineNode(Node):
                 errstr = ("Number of input dimensions undefined. Inversion"
                           "not possible.")
                 raise NodeException(errstr)
-            self.output_dim = self.input_dim
+            self._set_default_output_dim()
 
         # control the dimension of y
         self._check_output(y)
-- 
2.43.0


From f907ac295b27c69bf2d49bc7b056bbd7745044b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 29/89] fix: classifiers cumulating their data refused labels
 given as a list or a single label

---
 mdp/classifier_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/classifier_node.py b/mdp/classifier_node.py
index 41a3f1a..587d1c3 100644
--- a/mdp/classifier_node.py
+++ b/mdp/classifier_node.py
@@ -123,7 +123,7 @@ class ClassifierCumulator(VariadicCumulator('data', 'labels'), ClassifierNode):
         else:
             labels = [labels] * x.shape[0]
 
-        self.labels.extend(labels.ravel().tolist())
+        self.labels.extend(numx.ravel(labels).tolist())
 
     def _stop_training(self, *args, **kwargs):
         """Transform the data and labels lists to array objects and reshape them."""
-- 
2.43.0


From 3a11b928d8e15cd32b13b438075d5405c0d81c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 30/89] fix: switchboards accepted negative connections and
 gapped fields, mean inverse lost the data type, factory for rhombic
 switchboards and its parameters

---
 mdp/hinet/switchboard.py         | 14 +++++++++++++-
 mdp/hinet/switchboard_factory.py | 10 +++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index c90f07e..a7e95ba 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -56,6 +56,9 @@ class Switchboard(mdp.Node):
             err = ("One or more switchboard connection "
                    "indices exceed the input dimension.")
             raise SwitchboardException(err)
+        if numx.nanmin(connections) < 0:
+            err = "One or more switchboard connection indices are negative."
+            raise SwitchboardException(err)
         # checks passed
         self.connections = numx.array(connections)
         output_dim = len(connections)
@@ -107,7 +110,9 @@ class MeanInverseSwitchboard(Switchboard):
         """Take the mean of overlapping values."""
         n_y_cons = numx.bincount(self.connections)  # n. connections to y_i
         y_cons = numx.argsort(self.connections)  # x indices for y_i
-        y = numx.zeros((len(x), self.input_dim))
+        # integer data has no integer mean, so use the default type for it
+        y_dtype = x.dtype if x.dtype.kind in 'fc' else None
+        y = numx.zeros((len(x), self.input_dim), dtype=y_dtype)
         i_x_counter = 0  # counter for processed x indices
         i_y = 0  # current y index
         while True:
@@ -274,6 +279,13 @@ class Rectangular2dSwitchboard(ChannelSwitchboard):
                        "This would lead to an empty connection list." %
                        name)
                 raise Rectangular2dSwitchboardException(err)
+            # a spacing larger than the field leaves gaps between the fields
+            if (field_spacing_xy[i] > field_channels_xy[i] and not ignore_cover
+                and (in_channels_xy[i] - field_channels_xy[i] >=
+                     field_spacing_xy[i])):
+                err = ("Channel fields do not "
+                       "cover all input channels in %s-direction." % name)
+                raise Rectangular2dSwitchboardException(err)
         # number of output channels in x-direction
         x_out_channels = (((in_channels_xy[0] - field_channels_xy[0]) //
                            field_spacing_xy[0]) + 1)
diff --git a/mdp/hinet/switchboard_factory.py b/mdp/hinet/switchboard_factory.py
index 6df50eb..a0e3fa6 100644
--- a/mdp/hinet/switchboard_factory.py
+++ b/mdp/hinet/switchboard_factory.py
@@ -94,13 +94,11 @@ class FactoryRectangular2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        if not "ignore_cover" in free_params:
-            free_params["ignore_cover"] = True
         return {"in_channels_xy": prev_switchboard.out_channels_xy,
                 "field_channels_xy": free_params["field_channels_xy"],
                 "field_spacing_xy": free_params["field_spacing_xy"],
                 "in_channel_dim": in_channel_dim,
-                "ignore_cover": free_params["ignore_cover"]}
+                "ignore_cover": free_params.get("ignore_cover", True)}
 
 
 class FactoryDoubleRect2dSwitchboard(FactoryExtensionChannelSwitchboard,
@@ -114,12 +112,10 @@ class FactoryDoubleRect2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        if not "ignore_cover" in free_params:
-            free_params["ignore_cover"] = True
         return {"in_channels_xy": prev_switchboard.out_channels_xy,
                 "field_channels_xy": free_params["field_channels_xy"],
                 "in_channel_dim": in_channel_dim,
-                "ignore_cover": free_params["ignore_cover"]}
+                "ignore_cover": free_params.get("ignore_cover", True)}
 
 
 class FactoryDoubleRhomb2dSwitchboard(FactoryExtensionChannelSwitchboard,
@@ -132,6 +128,6 @@ class FactoryDoubleRhomb2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        return {"long_out_channels_xy": prev_switchboard.long_out_channels_xy,
+        return {"long_in_channels_xy": prev_switchboard.long_out_channels_xy,
                 "diag_field_channels": free_params["field_size"],
                 "in_channel_dim": in_channel_dim}
-- 
2.43.0


From 7b419f2811f7abf1ca6b06bf0be242795bda39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 31/89] fix: relative targets outside of a BiFlow wrapped
 around, unknown targets raised TypeError, several chunks without output array
 were refused, combining chunk messages changed them, stop results of the last
 node failed

---
 bimdp/biflow.py           | 19 +++++++++++++++++--
 bimdp/hinet/biflownode.py |  9 +++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 3b82c43..48040d3 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -68,7 +68,10 @@ class MessageResultContainer(object):
                         self._msg_results[key] = msg[key]
                     else:
                         try:
-                            self._msg_results[key] += msg[key]
+                            # no in-place addition, the first value
+                            # still belongs to the message
+                            self._msg_results[key] = (self._msg_results[key] +
+                                                      msg[key])
                         except:
                             err = ("Could not combine final msg results "
                                    "in BiFlow.")
@@ -276,6 +279,11 @@ class BiFlow(mdp.Flow):
             err = ("Node produced invalid return value " +
                    "for stop_training: " + str(result))
             raise BiFlowException(err)
+        if target is None:
+            target = 1
+        if isinstance(target, int) and nodenr + target in (-1, len(self.flow)):
+            # the end of the flow is already reached
+            return
         i_node = self._target_to_index(target, nodenr)
         result = self._execute_seq(x, msg, i_node=i_node)
         # check that we reached the end of flow or get EXIT_TARGET,
@@ -352,7 +360,7 @@ class BiFlow(mdp.Flow):
             else:
                 if y_results is None:
                     y_results = False
-                else:
+                elif y_results is not False:
                     err = "Some but not all y return values were None."
                     raise BiFlowException(err)
         if empty_iterator:
@@ -534,6 +542,9 @@ class BiFlow(mdp.Flow):
         ## this method is also used by other classes, like BiFlowNode
         if msg is not None:
             msg = msg.copy()  # nodes may modify the msg of the caller
+        if not isinstance(i_node, int):
+            # the target was not found in this flow
+            return x, msg, i_node
         while i_node != stop_at_node:
             if isinstance(self.flow[i_node], BiNode):
                 result = self.flow[i_node].execute(x, msg)
@@ -567,6 +578,10 @@ class BiFlow(mdp.Flow):
                         return (x, msg)
                 elif i_node == -1:
                     return x, msg, -1
+                elif not 0 <= i_node < len(self.flow):
+                    err = ("Target int value references a node outside of "
+                           "the flow (target %d)." % target)
+                    raise BiFlowException(err)
             else:
                 i_node = self._target_to_index(target, i_node)
                 if not isinstance(i_node, int):
diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index a3315d8..d9f3e29 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -166,6 +166,7 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                             return (x, msg)
                     elif i_node == -1:
                         return x, msg, -1
+                    self._check_node_index(i_node, target)
                 else:
                     i_node = self._flow._target_to_index(target, i_node)
                     if not isinstance(i_node, int):
@@ -214,6 +215,7 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                     return x, msg, 1
                 elif i_node == -1:
                     return x, msg, -1
+                self._check_node_index(i_node, target)
             else:
                 i_node = self._flow._target_to_index(target, nodenr)
                 if not isinstance(i_node, int):
@@ -224,6 +226,13 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         # return the custom _stop_training function
         return _stop_training
 
+    def _check_node_index(self, i_node, target):
+        """Raise an exception if there is no internal node with this index."""
+        if not 0 <= i_node < len(self._flow):
+            err = ("Target int value references a node outside of "
+                   "the flow (target %d)." % target)
+            raise BiFlowException(err)
+
     def _get_stop_training_wrapper(self, node, func):
         """Return wrapper for stop_training to set BiFlowNode outputdim."""
         # We have to overwrite the version from FlowNode to take care of the
-- 
2.43.0


From 87344dccf02cf796ff6eebf2d0a6dd4f539254a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 32/89] fix: BiNode.train kept messages it drops elsewhere, did
 not count data in messages as training, coroutines wrapped their return value

---
 bimdp/binode.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index e2fa7ac..826b636 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -197,7 +197,12 @@ class BiNode(mdp.Node):
                 raise BiNodeException(err)
             self._train_phase_started = True
             x = self._refcast(x)
-            return self._train_seq[self._train_phase][0](x)
+            result = self._train_seq[self._train_phase][0](x)
+            if (isinstance(result, tuple) and len(result) == 2 and
+                    result[0] is None):
+                # drop the msg like below
+                return None
+            return result
         msg_id_keys = self._get_msg_id_keys(msg)
         target = self._extract_message_key("target", msg, msg_id_keys)
         method_name = self._extract_message_key("method", msg, msg_id_keys)
@@ -215,10 +220,12 @@ class BiNode(mdp.Node):
                            str(list(arg_dict.keys())) +
                            "are not compatible with training %s." % str(self))
                     raise BiNodeException(err)
-                self._train_phase_started = True
                 x = self._refcast(x)
             elif method == self._inverse:
                 self._pre_inversion_checks(x)
+        if (not method_name) or (method_name == "train"):
+            # the data can also be in the message
+            self._train_phase_started = True
         result = method(x, **arg_dict)
         if result is None:
             return None
@@ -530,10 +537,8 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
-                    return exception.args
-                else:
-                    return None
+                # the value of the return statement, normally None
+                return getattr(exception, "value", None)
         # turn the signature into the one specified by the args
         interface_infodict = infodict.copy()
         interface_infodict["signature"] = ", ".join(args)
@@ -555,10 +560,8 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
-                    return exception.args
-                else:
-                    return None
+                # the value of the return statement, normally None
+                return getattr(exception, "value", None)
         coroutine_initialization = mdp.NodeMetaclass._wrap_function(
             _coroutine_initialization, infodict)
         return coroutine_initialization
-- 
2.43.0


From 1804f15df0c5ee456a0420a47f41808effae2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 33/89] fix: jumps and stop messages of the last node in a
 BiFlowNode were refused or lost

---
 bimdp/hinet/biflownode.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index d9f3e29..4465769 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -92,16 +92,18 @@ class BiFlowNode(BiNode, hinet.FlowNode):
     def _get_train_seq(self):
         """Return a training sequence containing all training phases."""
         train_seq = []
+        remaining_len = 0
         for i_node, node in enumerate(self._flow):
+            remaining_len = 0
             if node.is_trainable():
                 remaining_len = (len(node._get_train_seq())
                                  - self._pretrained_phase[i_node])
                 train_seq += ([(self._get_train_function(i_node),
                                 self._get_stop_training_function(i_node))]
                               * remaining_len)
-        # if the last node is trainable we have to set the output dimensions
+        # if the last node is trained we have to set the output dimensions
         # to those of the BiFlowNode.
-        if self._flow[-1].is_trainable():
+        if remaining_len:
             train_seq[-1] = (train_seq[-1][0],
                              self._get_stop_training_wrapper(self._flow[-1],
                                                              train_seq[-1][1]))
@@ -156,8 +158,10 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                     # to the outer flow
                     return result
                 ## check if the target is in this flow, return otherwise
+                if target is None:
+                    target = 1
                 if isinstance(target, int):
-                    i_node = i_node + target
+                    i_node = nodenr + target
                     # values of +1 and -1 beyond this flow are allowed
                     if i_node == len(self._flow):
                         if not msg:
@@ -208,6 +212,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                 err = ("Node produced invalid return value " +
                        "for stop_training: " + str(result))
                 raise BiFlowException(err)
+            if target is None:
+                target = 1
             if isinstance(target, int):
                 i_node = nodenr + target
                 # values of +1 and -1 beyond this flow are allowed
@@ -237,8 +243,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         """Return wrapper for stop_training to set BiFlowNode outputdim."""
         # We have to overwrite the version from FlowNode to take care of the
         # optional return value.
-        def _stop_training_wrapper(*args, **kwargs):
-            result = func(*args, **kwargs)
+        def _stop_training_wrapper(msg=None):
+            result = func(msg)
             self.output_dim = node.output_dim
             return result
         return _stop_training_wrapper
-- 
2.43.0


From fa90332c0aa8aa9619522e337c511c8f51d3514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 34/89] fix: inspection left traces after failures and changed
 clone layers, bidirectional versions of online and scikits nodes could not be
 trained, CloneBiLayer with copies could not be inverted

---
 bimdp/binode.py              |  6 +++
 bimdp/hinet/bihtmlvisitor.py |  2 +-
 bimdp/hinet/bilayer.py       |  7 +++
 bimdp/inspection/facade.py   | 56 +++++++++++++---------
 bimdp/inspection/tracer.py   | 91 +++++++++++++++++++++++-------------
 mdp/nodes/scikits_nodes.py   |  6 +--
 mdp/nodes/xsfa_nodes.py      |  2 +-
 7 files changed, 109 insertions(+), 61 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 826b636..d7aadd5 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -195,6 +195,9 @@ class BiNode(mdp.Node):
                 err = ("%s training seems to require " % str(self) +
                        "additional arguments, but none were given.")
                 raise BiNodeException(err)
+            if isinstance(self, mdp.OnlineNode):
+                # the update scheme of online nodes has no return value
+                return mdp.OnlineNode.train(self, x)
             self._train_phase_started = True
             x = self._refcast(x)
             result = self._train_seq[self._train_phase][0](x)
@@ -226,6 +229,9 @@ class BiNode(mdp.Node):
         if (not method_name) or (method_name == "train"):
             # the data can also be in the message
             self._train_phase_started = True
+            if x is not None and isinstance(self, mdp.OnlineNode):
+                # the update scheme of online nodes has no return value
+                return mdp.OnlineNode.train(self, x, **arg_dict)
         result = method(x, **arg_dict)
         if result is None:
             return None
diff --git a/bimdp/hinet/bihtmlvisitor.py b/bimdp/hinet/bihtmlvisitor.py
index 33f401a..3872b98 100644
--- a/bimdp/hinet/bihtmlvisitor.py
+++ b/bimdp/hinet/bihtmlvisitor.py
@@ -35,7 +35,7 @@ class BiHiNetHTMLVisitor(mdp.hinet.HiNetHTMLVisitor):
         css = super(BiHiNetHTMLVisitor, cls).hinet_css()
         return css + cls._BIHINET_STYLE
 
-    def _translate_clonelayer(self, clonelayer):
+    def _visit_clonelayer(self, clonelayer):
         """This specialized version checks for CloneBiLayer."""
         f = self._file
         self._open_node_env(clonelayer, "layer")
diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index afe0484..9b0d8c1 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -148,6 +148,13 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         else:
             return y
 
+    def _inverse(self, x, *args, **kwargs):
+        """Combine the inverse of all the internal nodes."""
+        if self.use_copies:
+            # each copy has to invert its own part of the data
+            return hinet.Layer._inverse(self, x, *args, **kwargs)
+        return super(CloneBiLayer, self)._inverse(x, *args, **kwargs)
+
     def _train(self, x, msg=None):
         """Perform single training step by training the internal nodes."""
         ## this code is mostly identical to the execute code,
diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index afefa90..5cacf4b 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -160,8 +160,14 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
         path = tempfile.mkdtemp(prefix='MDP_')
     # get first part of data iterators as sample data for inspection
     # if data_iterables is an array, wrap it up in a list
-    if isinstance(data_iterables, numx.ndarray):
+    if data_iterables is None:
+        data_iterables = [None] * len(flow)
+    elif isinstance(data_iterables, numx.ndarray):
         data_iterables = [[data_iterables]] * len(flow)
+        if msg_iterables is not None:
+            msg_iterables = [[msg_iterables]] * len(flow)
+    # the iterables are replaced, so do not use the list of the caller
+    data_iterables = list(data_iterables)
     x_samples = []
     for i, data_iterable in enumerate(data_iterables):
         if data_iterable is None:
@@ -172,6 +178,7 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
         data_iterables[i] = new_data_iterable
     del x_sample
     if msg_iterables:
+        msg_iterables = list(msg_iterables)
         msg_samples = []
         for i, msg_iterable in enumerate(msg_iterables):
             if msg_iterable is None:
@@ -190,29 +197,32 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
     del x_samples
     del msg_samples
     # perform the training and gather snapshots
-    prepare_training_inspection(flow=flow, path=path)
     try:
-        if isinstance(flow, BiFlow):
-            flow.train(data_iterables, msg_iterables, stop_messages, **kwargs)
-        else:
-            flow.train(data_iterables, **kwargs)
-    except Exception:
-        if debug:
-            traceback.print_exc()
-            print ("exception during training, " +
-                   "inspecting up to failure point...")
-            # create the last snapshot manually
-            try:
-                # if a normal mdp.Flow instance was given then this fails
-                flow._bi_reset()
-            except Exception:
-                pass
-            filename = (flow._snapshot_name_ + "_%d" % flow._snapshot_counter_
-                        + PICKLE_EXT)
-            robust_pickle(flow._snapshot_path_, filename, flow)
-        else:
-            raise
-    remove_inspection_residues(flow)
+        prepare_training_inspection(flow=flow, path=path)
+        try:
+            if isinstance(flow, BiFlow):
+                flow.train(data_iterables, msg_iterables, stop_messages,
+                           **kwargs)
+            else:
+                flow.train(data_iterables, **kwargs)
+        except Exception:
+            if debug:
+                traceback.print_exc()
+                print ("exception during training, " +
+                       "inspecting up to failure point...")
+                # create the last snapshot manually
+                try:
+                    # if a normal mdp.Flow instance was given then this fails
+                    flow._bi_reset()
+                except Exception:
+                    pass
+                filename = (flow._snapshot_name_ +
+                            "_%d" % flow._snapshot_counter_ + PICKLE_EXT)
+                robust_pickle(flow._snapshot_path_, filename, flow)
+            else:
+                raise
+    finally:
+        remove_inspection_residues(flow)
     # reload data samples
     with open(os.path.join(path, "training_data_samples.pckl"), "rb") as sample_file:
         x_samples, msg_samples, stop_messages = pickle.load(sample_file)
diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 6d00df1..9828abe 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -129,8 +129,18 @@ class InspectionHTMLTracer(object):
         # train and stop filenames must be different
         self._trace_name = trace_name + "_t"
         self._flow = flow
-        self._tracing_decorator.decorate_flow(flow)
         biflownode = BiFlowNode(BiFlow(flow.flow))
+        try:
+            self._tracing_decorator.decorate_flow(flow)
+            return self._trace_training(biflownode, x, msg, stop_msg,
+                                        trace_name, debug, **kwargs)
+        finally:
+            # restore undecorated flow
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
+
+    def _trace_training(self, biflownode, x, msg, stop_msg, trace_name, debug,
+                        **kwargs):
+        """Perform the actual tracing for trace_training."""
         try:
             biflownode.train(x=x, msg=msg, **kwargs)
             # reset is important for the following stop_training
@@ -165,8 +175,6 @@ class InspectionHTMLTracer(object):
                 raise
         stop_filenames = self._slide_filenames
         stop_node_ids = self._slide_node_ids
-        # restore undecorated flow
-        self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
         return train_filenames, train_node_ids, stop_filenames, stop_node_ids
 
     def trace_execution(self, path, trace_name, flow, x, msg=None, target=None,
@@ -186,12 +194,20 @@ class InspectionHTMLTracer(object):
         self._trace_path = path
         self._trace_name = trace_name
         self._flow = flow
-        self._tracing_decorator.decorate_flow(flow)
         if (not (isinstance(flow, BiFlow) or isinstance(flow, BiNode)) and
             (msg is not None)):
             # a msg would be interpreted as nodenr by a Flow, so check this
             err = "A msg was given for a normal Flow (need BiFlow)."
             raise Exception(err)
+        try:
+            self._tracing_decorator.decorate_flow(flow)
+            return self._trace_execution(x, msg, target, debug, **kwargs)
+        finally:
+            # restore undecorated flow
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
+
+    def _trace_execution(self, x, msg, target, debug, **kwargs):
+        """Perform the actual tracing for trace_execution."""
         try:
             if msg or target:
                 result = self._flow.execute(x, msg, target, **kwargs)
@@ -212,7 +228,6 @@ class InspectionHTMLTracer(object):
                 raise TraceDebugException(result=result)
             else:
                 raise
-        self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
         if not self._section_ids:
             self._section_ids = None
         else:
@@ -282,7 +297,8 @@ class InspectionHTMLTracer(object):
         html_file.close()
 
     def _write_error_frame(self):
-        with self._begin_HTML_frame() as html_file:
+        html_file = self._begin_HTML_frame()
+        try:
             html_file.write('<div class="error">')
             html_file.write('<h3>Encountered Exception</h3>')
             traceback_html = traceback.format_exc().replace('\n', '<br>')
@@ -303,12 +319,16 @@ class InspectionHTMLTracer(object):
 #        traceback_html = buffer.getvalue()
             html_file.write(traceback_html)
             html_file.write('</div>')
+        finally:
             self._end_HTML_frame(html_file)
 
     ## monkey patching tracing decorator wrapper methods ##
 
     def _standard_tracer_decorate(self, node):
         """Adds a tracer wrapper to the node via monkey patching."""
+        if hasattr(node, TRACING_WRAP_FLAG):
+            # the same node can be part of the flow several times
+            return
         # add a marker to show that this node is wrapped
         setattr(node, TRACING_WRAP_FLAG, True)
         trace_method_names = list(NODE_TRACE_METHOD_NAMES)
@@ -426,23 +446,11 @@ class TraceDecorationVisitor(object):
                 del clonelayer._set_use_copies
                 del clonelayer._original_set_use_copies
                 del clonelayer.__getstate__
-                self._visit_node(clonelayer.nodes[0])
-                if not clonelayer.use_copies:
-                    clonelayer.nodes = ((clonelayer.node,) *
-                                        len(clonelayer.nodes))
-            else:
-                self._visit_node(clonelayer.nodes[0])
-                clonelayer.nodes = (clonelayer.node,) * len(clonelayer.nodes)
+            self._undecorate_clonelayer_nodes(clonelayer)
             # undecoration is complete
             return
         ## decorate clonelayer
-        if ((not isinstance(clonelayer, CloneBiLayer)) or
-            (not clonelayer.use_copies)):
-            # use a decorated deep copy for the first node
-            clonelayer.node = clonelayer.nodes[0].copy()
-            clonelayer.nodes = (clonelayer.node,) + clonelayer.nodes[1:]
-        # only decorate the first node
-        self._visit_node(clonelayer.nodes[0])
+        self._decorate_clonelayer_nodes(clonelayer)
         if isinstance(clonelayer, CloneBiLayer):
             # add a wrapper to _set_use_copies,
             # otherwise all nodes in layer would get decorated
@@ -451,24 +459,20 @@ class TraceDecorationVisitor(object):
             def wrapped_use_copies(self, use_copies):
                 # undecorate internal nodes to allow copy operation
                 flow_decorator._undecorate_mode = True
-                flow_decorator._visit_node(clonelayer.nodes[0])
+                flow_decorator._undecorate_clonelayer_nodes(self)
                 flow_decorator._undecorate_mode = False
-                if use_copies and not self.use_copies:
-                    # switch to node copies, no problem
-                    clonelayer._original_set_use_copies(use_copies)
-                elif not use_copies and self.use_copies:
-                    # switch to a single node instance
-                    # but use a (decorated) deep copy for first node
-                    clonelayer._original_set_use_copies(use_copies)
-                    clonelayer.node = clonelayer.nodes[0].copy()
-                    clonelayer.nodes = ((clonelayer.node,) +
-                                        clonelayer.nodes[1:])
-                flow_decorator._visit_node(clonelayer.nodes[0])
+                try:
+                    self._original_set_use_copies(use_copies)
+                finally:
+                    flow_decorator._decorate_clonelayer_nodes(self)
             clonelayer._set_use_copies = wrapped_use_copies.__get__(clonelayer)
             # modify getstate to enable pickling
             # (get rid of the instance methods)
             def wrapped_getstate(self):
                 result = self.__dict__.copy()
+                if "_insp_original_nodes" in result:
+                    (result["node"],
+                     result["nodes"]) = result.pop("_insp_original_nodes")
                 # delete instance methods
                 del result["_original_set_use_copies"]
                 del result["_set_use_copies"]
@@ -476,6 +480,26 @@ class TraceDecorationVisitor(object):
                 return result
             clonelayer.__getstate__ = wrapped_getstate.__get__(clonelayer)
 
+    def _decorate_clonelayer_nodes(self, clonelayer):
+        """Decorate only the first node of the layer."""
+        if ((not isinstance(clonelayer, CloneBiLayer)) or
+            (not clonelayer.use_copies)):
+            # use a decorated deep copy for the first node
+            clonelayer._insp_original_nodes = (clonelayer.node,
+                                               clonelayer.nodes)
+            clonelayer.node = clonelayer.nodes[0].copy()
+            clonelayer.nodes = ((clonelayer.node,) +
+                                tuple(clonelayer.nodes[1:]))
+        self._visit_node(clonelayer.nodes[0])
+
+    def _undecorate_clonelayer_nodes(self, clonelayer):
+        """Undecorate the first node of the layer and restore the nodes."""
+        self._visit_node(clonelayer.nodes[0])
+        if hasattr(clonelayer, "_insp_original_nodes"):
+            (clonelayer.node,
+             clonelayer.nodes) = clonelayer._insp_original_nodes
+            del clonelayer._insp_original_nodes
+
 
 _INSPECTION_CSS_FILENAME = "trace.css"
 
@@ -836,7 +860,8 @@ def _trace_biflow_training(snapshot_path, inspection_path,
         for file_path, dirs, files in os.walk(os.path.abspath(snapshot_path)):
             dirs.sort()
             files = fnmatch.filter(files, SNAPSHOT_FILENAME + "*" + PICKLE_EXT)
-            files.sort()
+            # sort by number, not alphabetically
+            files.sort(key=lambda name: (len(name), name))
             for filename in files:
                 filename = os.path.join(file_path, filename)
                 # load the flow snapshot
diff --git a/mdp/nodes/scikits_nodes.py b/mdp/nodes/scikits_nodes.py
index 2a64e75..d14114e 100644
--- a/mdp/nodes/scikits_nodes.py
+++ b/mdp/nodes/scikits_nodes.py
@@ -249,7 +249,7 @@ def wrap_scikits_classifier(scikits_class):
 
         def _stop_training(self, **kwargs):
             super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, self.labels, **kwargs)
+            self.scikits_alg.fit(self.data, self.labels, **kwargs)
 
         def _label(self, x):
             return self.scikits_alg.predict(x)[:, newaxis]
@@ -351,7 +351,7 @@ def wrap_scikits_transformer(scikits_class):
 
         def _stop_training(self, **kwargs):
             super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, **kwargs)
+            self.scikits_alg.fit(self.data, **kwargs)
 
         def _execute(self, x):
             return self.scikits_alg.transform(x)
@@ -451,7 +451,7 @@ def wrap_scikits_predictor(scikits_class):
 
         def _stop_training(self, **kwargs):
             super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, **kwargs)
+            self.scikits_alg.fit(self.data, **kwargs)
 
         def _execute(self, x):
             return self.scikits_alg.predict(x)
diff --git a/mdp/nodes/xsfa_nodes.py b/mdp/nodes/xsfa_nodes.py
index 7ba1950..333d29c 100644
--- a/mdp/nodes/xsfa_nodes.py
+++ b/mdp/nodes/xsfa_nodes.py
@@ -147,7 +147,7 @@ class XSFANode(mdp.Node):
         if self._flow is None:
             # we still don't know the number of training_phases yet,
             # but we can assure that we will have more than 1:
-            return [(None, None), (None, None)]
+            return [(self._train, self._stop_training)] * 2
         else:
             return ([(self._train, self._stop_training)] *
                     sum(self._training_phases))
-- 
2.43.0


From 3d2aa174a91b87bdd6c711ec9f12cbb4e09e6bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 35/89] fix: PCANode returned fewer dimensions than announced
 when asked for more than there are, output_dim=1.0 failed, NIPALS

---
 mdp/nodes/pca_nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index d9ea36d..f83aba4 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -168,6 +168,12 @@ class PCANode(mdp.Node):
         if self.desired_variance is None and self.output_dim is None:
             self.output_dim = self.input_dim
             return None
+        # there are not more components than variables
+        if self.output_dim is not None and self.output_dim > self.input_dim:
+            if not self.reduce:
+                # raises an exception
+                self.output_dim = self.input_dim
+            return None
 
         ## define the range of eigenvalues to compute
         # if the number of principal components to keep has been
@@ -256,6 +262,8 @@ class PCANode(mdp.Node):
             # select only the relevant eigenvalues
             # number of relevant eigenvalues
             neigval = int(varcum.searchsorted(self.desired_variance) + 1.)
+            # the sum can be smaller because of rounding errors
+            neigval = min(neigval, len(d))
             #self.explained_variance = varcum[neigval-1]
             # cut
             d = d[0:neigval]
-- 
2.43.0


From 7970059de128b1d2b2c8f4d6fac0f0dc87c14fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 36/89] fix: time_derivative of VartimeSFANode lost the data
 type

---
 mdp/nodes/sfa_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index d610139..d221a58 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -525,7 +525,7 @@ class VartimeSFANode(SFANode):
             outlen = x.shape[0]-1  if self.tchunk == 0 or dt.shape[0] != x.shape[0] else x.shape[0]
         elif dt > 0:
             outlen = x.shape[0]  if self.tchunk > 0  and time_dep else x.shape[0]-1
-        out = numx.empty([outlen, x.shape[1]])
+        out = numx.empty([outlen, x.shape[1]], dtype=x.dtype)
 
         if dt is not None and type(dt) == numx.ndarray:
             # Improvements can be made, by interpolating polynomials
-- 
2.43.0


From 522ac05e56436900a0b7b4d412d6a54b2b5ac48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 37/89] fix: refused input dimensions were half applied

---
 mdp/nodes/ica_nodes.py        | 2 +-
 mdp/nodes/misc_nodes.py       | 4 ++--
 mdp/nodes/neural_gas_nodes.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 2526bdc..4a9fe03 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -129,11 +129,11 @@ class ICANode(mdp.Cumulator, mdp.Node, ProjectMatrixMixin):
 
 
     def _set_input_dim(self, n):
-        self._input_dim = n
         if self.whitened:
             self.output_dim = n
         elif self.white_comp is None:
             self.output_dim = n
+        self._input_dim = n
 
     def _stop_training(self):
         """Whiten data if needed and call the 'core' routine to perform ICA.
diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index c5eaaf8..e61f66b 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -190,8 +190,8 @@ class HitParadeNode(PreserveDimNode):
         self.tlen = 0
 
     def _set_input_dim(self, n):
-        self._input_dim = n
         self.output_dim = n
+        self._input_dim = n
 
     def _get_supported_dtypes(self):
         """Return the data types supported by this node.
@@ -575,8 +575,8 @@ class EtaComputerNode(Node):
         self._initialized = 0
 
     def _set_input_dim(self, n):
-        self._input_dim = n
         self.output_dim = n
+        self._input_dim = n
 
     def _init_internals(self):
         input_dim = self.input_dim
diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index d0ec7b9..8b653d4 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -141,8 +141,8 @@ class GrowingNeuralGasNode(Node):
             self._add_edge(node1, node2)
 
     def _set_input_dim(self, n):
-        self._input_dim = n
         self.output_dim = n
+        self._input_dim = n
 
     def _add_node(self, pos):
         node = self.graph.add_node(_NGNodeData(pos))
-- 
2.43.0


From 16df6b61d405659e71ae778ee401c78f6502b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 38/89] fix: inverse before the dtype was set

---
 mdp/signal_node.py        | 4 ++++
 mdp/signal_node_online.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 251d75a..306cbb6 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -565,6 +565,10 @@ class Node(with_metaclass(NodeMetaclass, object)):
         # control the dimension of y
         self._check_output(y)
 
+        # set the dtype if necessary
+        if self.dtype is None:
+            self.dtype = y.dtype
+
     ### casting helper functions
 
     def _refcast(self, x):
diff --git a/mdp/signal_node_online.py b/mdp/signal_node_online.py
index f382321..3c11c59 100644
--- a/mdp/signal_node_online.py
+++ b/mdp/signal_node_online.py
@@ -214,6 +214,10 @@ class OnlineNode(Node):
         # control the dimension of y
         self._check_output(y)
 
+        # set the dtype if necessary
+        if self.dtype is None:
+            self.dtype = y.dtype
+
     def _check_input(self, x):
         super(OnlineNode, self)._check_input(x)
 
-- 
2.43.0


From 4a8092f926bca56bc9a86678990bb9215b59c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 39/89] fix: scikits transformers and predictors announced one
 output dimension and returned another

---
 mdp/nodes/scikits_nodes.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/mdp/nodes/scikits_nodes.py b/mdp/nodes/scikits_nodes.py
index d14114e..8799313 100644
--- a/mdp/nodes/scikits_nodes.py
+++ b/mdp/nodes/scikits_nodes.py
@@ -282,7 +282,7 @@ def wrap_scikits_classifier(scikits_class):
             return ['float32', 'float64']
 
     # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
     ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
@@ -353,8 +353,22 @@ def wrap_scikits_transformer(scikits_class):
             super(ScikitsNode, self)._stop_training(self)
             self.scikits_alg.fit(self.data, **kwargs)
 
+        def _set_default_output_dim(self):
+            # the dimension is determined by the fitted algorithm
+            y = self._as_output(self.scikits_alg.transform(self.data[:1]))
+            self.output_dim = y.shape[1]
+
+        def _as_output(self, y):
+            """Return a result of the algorithm in the form used by nodes."""
+            if y.ndim == 1:
+                y = y[:, mdp.numx.newaxis]
+            return self._refcast(y)
+
         def _execute(self, x):
-            return self.scikits_alg.transform(x)
+            y = self._as_output(self.scikits_alg.transform(x))
+            # fails if another dimension was set
+            self.output_dim = y.shape[1]
+            return y
 
         # ---- administrative details
 
@@ -384,7 +398,7 @@ def wrap_scikits_transformer(scikits_class):
             return ['float32', 'float64']
 
     # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
     ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
@@ -453,8 +467,22 @@ def wrap_scikits_predictor(scikits_class):
             super(ScikitsNode, self)._stop_training(self)
             self.scikits_alg.fit(self.data, **kwargs)
 
+        def _set_default_output_dim(self):
+            # the dimension is determined by the fitted algorithm
+            y = self._as_output(self.scikits_alg.predict(self.data[:1]))
+            self.output_dim = y.shape[1]
+
+        def _as_output(self, y):
+            """Return a result of the algorithm in the form used by nodes."""
+            if y.ndim == 1:
+                y = y[:, mdp.numx.newaxis]
+            return self._refcast(y)
+
         def _execute(self, x):
-            return self.scikits_alg.predict(x)
+            y = self._as_output(self.scikits_alg.predict(x))
+            # fails if another dimension was set
+            self.output_dim = y.shape[1]
+            return y
 
         # ---- administrative details
 
@@ -479,7 +507,7 @@ def wrap_scikits_predictor(scikits_class):
             return ['float32', 'float64']
 
     # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
     ScikitsNode.__qualname__ = ScikitsNode.__name__
     ScikitsNode.__doc__ = _gen_docstring(scikits_class)
 
-- 
2.43.0


From 9ba01d48dddce9a6aee151db69ad5bd20b5c781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 40/89] fix: online flows closed their terminal node after the
 first chunk, terminal nodes with several phases failed, terminal online nodes
 with several phases were closed

---
 mdp/linear_flows_online.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index cf210b7..f426a68 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -93,14 +93,15 @@ class OnlineFlow(mdp.Flow):
 
     def _train_node(self, data_iterable, nodenr):
         err_str = ('Not used in %s' % str(type(self).__name__))
-        OnlineFlowException(err_str)
+        raise OnlineFlowException(err_str)
 
     def _get_required_train_args_from_flow(self, flow):
         _train_arg_keys_list = [self._get_required_train_args(node) for node in flow]
         _train_args_needed_list = [bool(len(train_arg_keys)) for train_arg_keys in _train_arg_keys_list]
         return _train_arg_keys_list, _train_args_needed_list
 
-    def _train_nodes(self, data_iterables):
+    def _train_nodes(self, data_iterables, only_last=False):
+        # only_last -- train only the last node, all others are just executed
         empty_iterator = True
         for x in data_iterables:
             if (type(x) is tuple) or (type(x) is list):
@@ -116,6 +117,7 @@ class OnlineFlow(mdp.Flow):
             for nodenr in range(len(self.flow)):
                 try:
                     node = self.flow[nodenr]
+                    train_node = node.is_training() and (not only_last or nodenr == len(self.flow) - 1)
                     # check if the required number of arguments was given
                     if self._train_args_needed_list[nodenr]:
                         # the nodenr'th arguments tuple are passed only to the
@@ -131,14 +133,16 @@ class OnlineFlow(mdp.Flow):
                                    "List of required argument keys: " +
                                    str(self._train_arg_keys_list[nodenr]))
                             raise OnlineFlowException(err)
-                        if node.is_training():
+                        if train_node:
                             node.train(x, *arg)
                     else:
-                        if node.is_training():
+                        if train_node:
                             node.train(x)
 
-                    # input for the next node
-                    x = node.execute(x)
+                    # a terminal Node in training must not be executed, this would close its training phase
+                    if isinstance(node, mdp.OnlineNode) or not node.is_training():
+                        # input for the next node
+                        x = node.execute(x)
                 except FlowExceptionCR as e:
                     # this exception was already propagated,
                     # probably during the execution  of a node upstream in the flow
@@ -165,9 +169,12 @@ class OnlineFlow(mdp.Flow):
                            "is empty.")
                 raise FlowException(err_str)
         self._stop_training_hook()
-        if self.flow[-1].get_remaining_train_phase() > 1:
+        # all training phases of an OnlineNode are active at the same time
+        if not isinstance(self.flow[-1], mdp.OnlineNode) and self.flow[-1].get_remaining_train_phase() > 1:
             # close the previous training phase
             self.flow[-1].stop_training()
+            # the other nodes have already been trained with the data
+            self._train_nodes(data_iterables, only_last=True)
 
     def _train_check_iterables(self, data_iterables):
         """Return the data iterable after some checks and sanitizing.
-- 
2.43.0


From e2c761f80ffe632c31beba5593592bdcea7d7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 41/89] fix: online flow nodes could not be trained with
 trained nodes inside, stop_training failed with a non-trainable first node

---
 mdp/hinet/flownode_online.py | 52 ++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 1eb5067..5d84dc2 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -107,11 +107,26 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
 
+        def get_train_function(_node):
+            # nodes which are already trained are only executed
+            def _train(x, *args, **kwargs):
+                if _node.is_training():
+                    _node.train(x, *args, **kwargs)
+
+            return _train
+
+        def get_stop_training_function(_node):
+            def _stop_training(*args, **kwargs):
+                if _node.is_training():
+                    _node.stop_training(*args, **kwargs)
+
+            return _stop_training
+
         trainable_nodes_nrs = []  # list of trainable node ids
         trainable_nodes = []  # list of trainable nodes
         for i_node, node in enumerate(self._flow):
@@ -120,6 +135,9 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
                 trainable_nodes.append(node)
 
         train_seq = []
+        if not trainable_nodes:
+            return train_seq
+
         # if the first node is not trainable, channel the input data through
         # the nodes until the first trainable-node.
         if trainable_nodes_nrs[0] > 0:
@@ -130,11 +148,11 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]), get_stop_training_function(trainable_nodes[i]),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # skip the execution for the last trainable node.
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]), get_stop_training_function(trainable_nodes[i]),
                                get_empty_function())]
 
         # try fix the dimension of the internal nodes and the FlowNode
@@ -251,7 +269,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
@@ -278,6 +296,21 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
 
             return _save_output_wrapper
 
+        def get_train_function(_node):
+            # nodes which are already trained are only executed
+            def _train(x, *args, **kwargs):
+                if _node.is_training():
+                    _node.train(x, *args, **kwargs)
+
+            return _train
+
+        def get_stop_training_function(_node):
+            def _stop_training(*args, **kwargs):
+                if _node.is_training():
+                    _node.stop_training(*args, **kwargs)
+
+            return _stop_training
+
         # get one iteration train sequence without stop training
 
         trainable_nodes_nrs = []  # list of trainable node ids
@@ -288,6 +321,9 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
                 trainable_nodes.append(node)
 
         train_seq = []
+        if not trainable_nodes:
+            return train_seq
+
         # if the first node is not trainable, channel the input data through
         # the nodes until the first trainable-node.
         if trainable_nodes_nrs[0] > 0:
@@ -298,12 +334,12 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, get_empty_function(),
+                train_seq += [(get_train_function(trainable_nodes[i]), get_empty_function(),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # the execute function channels the data through the remaining nodes
                 # to generate input for the next iteration
-                train_seq += [(trainable_nodes[i].train, get_empty_function(),
+                train_seq += [(get_train_function(trainable_nodes[i]), get_empty_function(),
                                get_execute_function(trainable_nodes_nrs[i], len(self._flow)))]
 
         # repeat for (self._flow_iterations-1) iterations
@@ -318,12 +354,12 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]), get_stop_training_function(trainable_nodes[i]),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # the execute function channels the data through the remaining nodes
                 # to save the output for the next train call.
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]), get_stop_training_function(trainable_nodes[i]),
                                _get_save_output_wrapper(get_execute_function(trainable_nodes_nrs[i],
                                                                              len(self._flow))))]
 
-- 
2.43.0


From 1eca47dbcd9fd74915b875e921c510cb2ba5b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 42/89] fix: online layers were trained like offline layers (in
 blocks, without counting)

---
 mdp/hinet/layer_online.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdp/hinet/layer_online.py b/mdp/hinet/layer_online.py
index 09a2332..22c5b34 100644
--- a/mdp/hinet/layer_online.py
+++ b/mdp/hinet/layer_online.py
@@ -106,6 +106,10 @@ class OnlineLayer(Layer, mdp.OnlineNode):
         """
         return mdp.OnlineNode._get_train_seq(self)
 
+    def train(self, x, *args, **kwargs):
+        # the train method inherited from the layers would be that of Node
+        mdp.OnlineNode.train(self, x, *args, **kwargs)
+
 
 class CloneOnlineLayer(CloneLayer, OnlineLayer):
     """OnlineLayer with a single node instance that is used multiple times.
@@ -159,3 +163,7 @@ class SameInputOnlineLayer(SameInputLayer, OnlineLayer):
         self.numx_rng = numx_rng
         # set training type
         self._set_training_type_from_nodes(nodes)
+
+    def train(self, x, *args, **kwargs):
+        # the train method inherited from the layers would be that of Node
+        mdp.OnlineNode.train(self, x, *args, **kwargs)
-- 
2.43.0


From 7ce341c7eb271cbced27084b15d9b514ad0bb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 43/89] fix: CCIPCANode and MCANode could not be trained with
 given initial vectors

---
 mdp/nodes/mca_nodes_online.py | 3 +++
 mdp/nodes/pca_nodes_online.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index 653a234..3e5e658 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -111,6 +111,9 @@ class MCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # initial vectors given at the initialization
+            self.init_eigen_vectors = self._init_v
 
     def _train(self, x):
         """Update the minor components."""
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index a5b482a..d44085a 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -121,6 +121,9 @@ class CCIPCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # initial vectors given at the initialization
+            self.init_eigen_vectors = self._init_v
 
     def _amnesic(self, n):
         """Return amnesic weights.
-- 
2.43.0


From 74c38ba68b879c23ba93675f179a3401a0603462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 44/89] fix: OnlineTimeDiffNode did not take the previous
 sample from blocks

---
 mdp/nodes/stats_nodes_online.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/stats_nodes_online.py b/mdp/nodes/stats_nodes_online.py
index 0b99c92..695af0a 100644
--- a/mdp/nodes/stats_nodes_online.py
+++ b/mdp/nodes/stats_nodes_online.py
@@ -169,13 +169,14 @@ class OnlineTimeDiffNode(mdp.PreserveDimOnlineNode):
 
     def _check_params(self, x):
         if self.x_prev is None:
-            self.x_prev = mdp.numx.zeros(x.shape, dtype=self.dtype)
-            self.x_cur = mdp.numx.zeros(x.shape, dtype=self.dtype)
+            self.x_prev = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
+            self.x_cur = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
 
     def _train(self, x):
         """Update the buffer."""
-        self.x_prev = self.x_cur
-        self.x_cur = x[-1:]
+        last = mdp.numx.vstack((self.x_cur, x))[-2:]
+        self.x_prev = last[:1]
+        self.x_cur = last[1:]
 
     @staticmethod
     def is_invertible():
-- 
2.43.0


From 6bbefb6c3643e4e9bab9672be39c3763ceafda61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 45/89] fix: IncSFANode trained its parts twice with the first
 data, ignored the derivatives within the first block and failed without mean
 removal

---
 mdp/nodes/sfa_nodes_online.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 61adb08..f8e792d 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -85,7 +85,8 @@ class IncSFANode(mdp.OnlineNode):
 
         super(IncSFANode, self).__init__(input_dim, output_dim, dtype, numx_rng)
 
-        self._new_episode = None
+        # the very first sample starts a new episode
+        self._new_episode = True
         self._init_sf = None
         self.wv = None
         self.sf = None
@@ -146,9 +147,9 @@ class IncSFANode(mdp.OnlineNode):
         if self._init_sf is None:
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-            x = self.avgnode.execute(x)
+                x = self.avgnode._execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
-            x = self.whiteningnode.execute(x)
+            x = self.whiteningnode._execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
             self._pseudo_check_fn(self.mcanode, x)
             self._init_sf = mult(self.whiteningnode.init_eigen_vectors, self.mcanode.init_eigen_vectors)
@@ -156,11 +157,6 @@ class IncSFANode(mdp.OnlineNode):
             if self.output_dim is None:
                 self.output_dim = self.mcanode.output_dim
 
-        if self._new_episode is None:  # Set new_episode to True for the very first sample
-            self._new_episode = True
-        elif self._new_episode:  # Set new_episode to False for the subsequent samples
-            self._new_episode = False
-
     @staticmethod
     def _pseudo_check_fn(node, x):
         node._check_input(x)
@@ -171,7 +167,10 @@ class IncSFANode(mdp.OnlineNode):
         node._train(x)
         node._train_iteration += x.shape[0]
 
-    def _check_train_args(self, x, *args, **kwargs):
+    def _check_train_args(self, x, new_episode=None):
+        # the argument is about the first sample of x
+        if new_episode is not None:
+            self._new_episode = new_episode
         if self.training_type == 'batch':
             # check that we have at least 2 time samples for batch training
             if x.shape[0] < 2:
@@ -214,9 +213,8 @@ class IncSFANode(mdp.OnlineNode):
                 sf_change = self._step_train(x[i:i + 1])
                 self._new_episode = False
         else:
-            if new_episode is not None:
-                self._new_episode = new_episode
             sf_change = self._step_train(x)
+            self._new_episode = False  # for the subsequent samples
 
         self.wv = self.whiteningnode.v
         self.sf_change = sf_change
@@ -235,7 +233,10 @@ class IncSFANode(mdp.OnlineNode):
 
         :return: The inverse of the slow feature response.
         """
-        return mult(y, pinv(self.sf)) + self.avgnode.avg
+        x = mult(y, pinv(self.sf))
+        if self.remove_mean:
+            x = self.avgnode._inverse(x)
+        return x
 
     def __repr__(self):
         """Print all args.
-- 
2.43.0


From 41f3f4124e766bca7c93ff140b645b465ec7a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 46/89] fix: cov2 mixed the biased mean product with the
 unbiased second moment

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index d00237b..237c5a1 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -218,7 +218,7 @@ def cov2(x, y):
     mnx = x.mean(axis=0)
     mny = y.mean(axis=0)
     tlen = x.shape[0]
-    return old_div(mdp.utils.mult(x.T, y),(tlen-1)) - numx.outer(mnx, mny)
+    return old_div(mdp.utils.mult(x.T, y) - tlen*numx.outer(mnx, mny), tlen-1)
 
 
 def cov_maxima(cov):
-- 
2.43.0


From af5dfd596416cb72c883e1e36738d2ee8460af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 47/89] fix: covariance estimators: variable-time matrices did
 not start afresh after fix and counted the gap of one-row chunks twice,
 refused blocks set the dtype, weights could not be a list or a single value

---
 mdp/utils/covariance.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index dbf9f5f..0534fc7 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -265,7 +265,7 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         if dt is None:
             _dt = 1.
         elif type(dt) == numx.ndarray:
-            _dt = dt[-x.shape[0]+1:, None]
+            _dt = dt[len(dt)-x.shape[0]+1:, None]
         else:
             _dt = dt
         sqdt = numx.sqrt(_dt)
@@ -335,6 +335,9 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         self._avg = None
         # number of observation so far during the training phase
         self._tlen = 0.
+        # the next chunk is the first one again
+        self._steps = 0
+        self.tchunk = 0
 
         return cov_mtx, avg, tlen
 
@@ -398,12 +401,6 @@ class DelayCovarianceMatrix(object):
 
     def update(self, x):
         """Update internal structures."""
-        if self._cov_mtx is None:
-            self._init_internals(x)
-
-        # cast input
-        x = mdp.utils.refcast(x, self._dtype)
-
         dt = self._dt
 
         # the number of data points in each block should be at least dt+1
@@ -412,6 +409,12 @@ class DelayCovarianceMatrix(object):
             err = 'Block length is %d, should be at least %d.' % (tlen, dt+1)
             raise mdp.MDPException(err)
 
+        if self._cov_mtx is None:
+            self._init_internals(x)
+
+        # cast input
+        x = mdp.utils.refcast(x, self._dtype)
+
         # update the covariance matrix, the average and the number of
         # observations (try to do everything inplace)
         self._cov_mtx += mdp.utils.mult(x[:tlen-dt, :].T, x[dt:tlen, :])
@@ -496,6 +499,9 @@ class MultipleCovarianceMatrices(object):
         Argument can be a sequence or a single value. In the latter case
         the same weight is applied to all matrices."""
         # apply a weighting vector to cov matrices
+        weights = numx.asarray(weights)
+        if weights.ndim == 0:
+            weights = weights.repeat(self.ncovs)
         err = ("len(weights)=%d does not match number "
                "of matrices (%d)" % (len(weights), self.ncovs))
         assert len(weights) == self.ncovs, err
@@ -548,11 +554,11 @@ class CrossCovarianceMatrix(CovarianceMatrix):
 
     def _init_internals(self, x, y):
         if self._dtype is None:
-            self._dtype = x.dtype
             if y.dtype != x.dtype:
                 err = 'dtype mismatch: x (%s) != y (%s)' % (x.dtype,
                                                             y.dtype)
                 raise mdp.MDPException(err)
+            self._dtype = x.dtype
         dim_x = x.shape[1]
         dim_y = y.shape[1]
         type_ = self._dtype
-- 
2.43.0


From 290e37d4c55ec2df0405fbea63e412af207d55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:25 +0000
Subject: [PATCH 48/89] fix: SimpleMarkovClassifier took single string labels
 apart, KMeansClassifier had no centroids when max_iter was reached

---
 mdp/nodes/classifier_nodes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 9b57ebd..c9885f3 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -179,8 +179,10 @@ class SimpleMarkovClassifier(ClassifierNode):
             or a single label, in which case all input data is assigned to
             the same class.
         """
-        # if labels is a number, all x's belong to the same class
-        for xi, labeli in mdp.utils.izip_stretched(x, labels):
+        # if labels is a single label, all x's belong to the same class
+        if not isinstance(labels, (list, tuple, numx.ndarray)):
+            labels = [labels] * x.shape[0]
+        for xi, labeli in zip(x, labels):
             self._learn(xi, labeli)
 
     def _learn(self, feature, label):
@@ -432,9 +434,9 @@ class KMeansClassifier(ClassifierNode):
                                         for idx, c in enumerate(new_centroids)])
             # check if we are stable
             if numx.all(new_centroids == centroids):
-                self._centroids = centroids
-                return
+                break
             centroids = new_centroids
+        self._centroids = centroids
 
     def _nearest_centroid_idx(self, data, centroids):
         dists = numx.array([numx.linalg.norm(data - c) for c in centroids])
-- 
2.43.0


From 9e1b5c4ac9d74853f4c65e3d1b243c687facf6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:35 +0000
Subject: [PATCH 49/89] fix: GaussianClassifier gave NaN probabilities (and the
 first label) for points far away from all classes

---
 mdp/nodes/classifier_nodes.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index c9885f3..0d70bca 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -549,15 +549,15 @@ class GaussianClassifier(ClassifierNode):
 
         del self._cov_objs
 
-    def _gaussian_prob(self, x, lbl_idx):
-        """Return the probability of the data points x with respect to a
-        gaussian.
+    def _gaussian_log_prob(self, x, lbl_idx):
+        """Return the logarithm of the probability of the data points x with
+        respect to a gaussian.
         
         :param x: Input data
         :type x: numpy.ndarray
         :param lbl_idx: 
-        :return: The probability of the data points x with respect to a
-            gaussian
+        :return: The logarithm of the probability of the data points x with
+            respect to a gaussian
         :rtype: float
         """
         x = self._refcast(x)
@@ -571,8 +571,8 @@ class GaussianClassifier(ClassifierNode):
         exponent = -0.5 * (utils.mult(x_mn, invS)*x_mn).sum(axis=1)
         # constant
         constant = old_div((2.*numx.pi)**(old_div(-dim,2.)), sqrt_detS)
-        # probability
-        return constant * numx.exp(exponent)
+        # log probability
+        return numx.log(constant) + exponent
 
     def class_probabilities(self, x):
         """Return the posterior probability of each class given the input.
@@ -584,15 +584,17 @@ class GaussianClassifier(ClassifierNode):
         """
         self._pre_execution_checks(x)
 
-        # compute the probability for each class
+        # compute the log probability for each class
         tmp_prob = numx.zeros((x.shape[0], len(self.labels)),
                               dtype=self.dtype)
         for i in range(len(self.labels)):
-            tmp_prob[:, i] = self._gaussian_prob(x, i)
-            tmp_prob[:, i] *= self.p[i]
+            tmp_prob[:, i] = self._gaussian_log_prob(x, i)
+            tmp_prob[:, i] += numx.log(self.p[i])
 
-        # normalize to probability 1
-        # (not necessary, but sometimes useful)
+        # normalize to probability 1, without underflow for points that are
+        # far away from all classes
+        tmp_prob -= tmp_prob.max(axis=1)[:, numx.newaxis]
+        tmp_prob = numx.exp(tmp_prob)
         tmp_tot = tmp_prob.sum(axis=1)
         tmp_tot = tmp_tot[:, numx.newaxis]
         return old_div(tmp_prob, tmp_tot)
-- 
2.43.0


From bbe961f87bf33ae8a8a51eaafc6e1f2e162754f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 50/89] fix: AdaptiveCutoffNode clipped one point too few at
 the upper end

---
 mdp/nodes/misc_nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index e61f66b..09ccf8e 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -989,9 +989,10 @@ class AdaptiveCutoffNode(HistogramNode):
                 index = self.lower_cutoff_fraction * len(sorted_data)
                 self.lower_bounds = sorted_data[int(index)]
             if self.upper_cutoff_fraction:
-                index = (len(sorted_data) -
-                         self.upper_cutoff_fraction * len(sorted_data))
-                self.upper_bounds = sorted_data[int(index)]
+                # the number of points above the bound
+                n_cut = int(self.upper_cutoff_fraction * len(sorted_data))
+                index = max(len(sorted_data) - 1 - n_cut, 0)
+                self.upper_bounds = sorted_data[index]
         super(AdaptiveCutoffNode, self)._stop_training()
 
     def _execute(self, x):
-- 
2.43.0


From bb1aa2f31acfc433dd1b99951f7a27aab8c9f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 51/89] fix: RBFExpansionNode truncated the inverse of integer
 covariance matrices

---
 mdp/nodes/expansion_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/nodes/expansion_nodes.py b/mdp/nodes/expansion_nodes.py
index d492fc0..990abd8 100644
--- a/mdp/nodes/expansion_nodes.py
+++ b/mdp/nodes/expansion_nodes.py
@@ -217,6 +217,9 @@ class RBFExpansionNode(mdp.Node):
 
         # multiply sizes if necessary
         sizes = numx.array(sizes, self.dtype)
+        if sizes.dtype.kind in 'iu':
+            # the inverse of an integer matrix is in general not integer
+            sizes = sizes.astype('d')
         if sizes.ndim==0 or sizes.ndim==2:
             sizes = numx.array([sizes]*self._output_dim)
         else:
-- 
2.43.0


From 030e89990368c044d239b910bbd42667176be04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 52/89] fix: RecursiveExpansionNode of degree 1 ignored the
 first function of the family, degree 0 returned the wrong width or None

---
 mdp/nodes/recursive_expansion_nodes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 652893a..d0dcbc5 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -584,15 +584,15 @@ class RecursiveExpansionNode(_ExpansionNode):
                         result, x, special, n, cur_var, pos)
                     n += 1
                     pos += 1
-        # in case input is unreasonable
         elif deg == 1:
-            result[:, 0] = 1
-            for i in range(num_vars):
-                result[:, i+1] = x[:, i]
-        elif self.with0:
-            return np.ones((num_samples, num_vars))
-        else:
-            return None
+            # the init functions set up to two orders, use only the first
+            first = np.empty([num_samples, 3], dtype=self.dtype)
+            first[:, 0] = 1.
+            for cur_var in range(num_vars):
+                self.r_init(first, x, 1, cur_var)
+                result[:, pos] = first[:, 1]
+                pos += 1
+        # for degree zero there is only the constant
 
         todoList = []
         for i in range(1, num_vars):
-- 
2.43.0


From 3e7a6f1faddc07d6924f84b6ebf545dd57f93203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 53/89] fix: NIPALSNode related unbiased component variances to
 the biased total, explaining more than 100% of the variance

---
 mdp/nodes/nipals.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/nipals.py b/mdp/nodes/nipals.py
index 28cb182..31cf396 100644
--- a/mdp/nodes/nipals.py
+++ b/mdp/nodes/nipals.py
@@ -94,12 +94,14 @@ class NIPALSNode(Cumulator, PCANode):
 
         # remove mean
         X -= mean
-        var = X.var(axis=0).sum()
+        # unbiased, like the variances of the components
+        var = X.var(axis=0).sum()*tlen/(tlen-1)
         self.total_variance = var
         exp_var = 0
 
         eigenv = numx.zeros((self.input_dim, self.input_dim), dtype=dtype)
         d = numx.zeros((self.input_dim,), dtype = dtype)
+        ncomp = 0
         for i in range(self.input_dim):
             it = 0
             # first score vector t is initialized to first column in X
@@ -133,10 +135,14 @@ class NIPALSNode(Cumulator, PCANode):
             D = mult(D, p)
             d[i] = old_div((D*D).sum(),(tlen-1))
             exp_var += old_div(d[i],var)
+            ncomp = i + 1
             if des_var and (exp_var >= self.desired_variance):
-                self.output_dim = i + 1
                 break
 
+        if des_var:
+            # all components, if the sum is smaller because of rounding errors
+            self.output_dim = ncomp
+
         self.d = d[:self.output_dim]
         self.v = eigenv[:self.output_dim, :].T
-        self.explained_variance = exp_var
+        self.explained_variance = old_div(self.d.sum(), var)
-- 
2.43.0


From 40fe11f7fe699b2960c9ea9c37e5aea932835a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 54/89] fix: NIPALSNode returned NaN components if the first
 column or the remaining data have no variance

---
 mdp/nodes/nipals.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/nipals.py b/mdp/nodes/nipals.py
index 31cf396..c083e66 100644
--- a/mdp/nodes/nipals.py
+++ b/mdp/nodes/nipals.py
@@ -102,10 +102,16 @@ class NIPALSNode(Cumulator, PCANode):
         eigenv = numx.zeros((self.input_dim, self.input_dim), dtype=dtype)
         d = numx.zeros((self.input_dim,), dtype = dtype)
         ncomp = 0
+        min_var = numx.finfo(dtype).eps*var
         for i in range(self.input_dim):
+            # the remaining components do not have any variance
+            col_var = (X*X).sum(axis=0)/(tlen-1)
+            if not col_var.sum() > min_var:
+                break
             it = 0
-            # first score vector t is initialized to first column in X
-            t = X[:, 0]
+            # first score vector t is initialized to the column in X with
+            # the largest variance
+            t = X[:, col_var.argmax()]
             # initialize difference
             diff = conv + 1
             while diff > conv:
-- 
2.43.0


From bc751782dfde1baf35d34b8bddf4535dd80482c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 55/89] fix: TimeDelayNode failed on signals shorter than its
 longest delay

---
 mdp/nodes/misc_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 09ccf8e..53fb3a6 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -434,7 +434,9 @@ class TimeDelayNode(TimeFramesNode):
         y = numx.zeros((rows, cols), dtype=self.dtype)
 
         for frame in range(self.time_frames):
-            y[gap*frame:, frame*n:(frame+1)*n] = x[:rows-gap*frame, :]
+            # frames that start after the last row only contain zeros
+            valid = max(rows-gap*frame, 0)
+            y[rows-valid:, frame*n:(frame+1)*n] = x[:valid, :]
 
         return y
 
-- 
2.43.0


From 7af7fe8eec0c69d226686ffda1904cf245a840de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 56/89] fix: inverting a RBM node returned None instead of
 raising IsNotInvertibleException

---
 mdp/nodes/rbm_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index 7fa5c20..ab1f4a9 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -194,7 +194,7 @@ class RBMNode(mdp.Node):
     def is_invertible():
         return False
 
-    def _pre_inversion_checks(self, y):
+    def _pre_sampling_checks(self, y):
         self._if_training_stop_training()
         # control the dimension of y
         self._check_output(y)
@@ -226,7 +226,7 @@ class RBMNode(mdp.Node):
             conditional probability.
         :rtype: tuple
         """
-        self._pre_inversion_checks(h)
+        self._pre_sampling_checks(h)
         return self._sample_v(h)
 
     def _energy(self, v, h):
@@ -413,7 +413,7 @@ class RBMWithLabelsNode(RBMNode):
           active at any time.
         :rtype: tuple
         """
-        self._pre_inversion_checks(h)
+        self._pre_sampling_checks(h)
 
         probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
                                                 concatenate=False)
-- 
2.43.0


From 423309068aa4ea5437cdcb46d8f8d7653b5be1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 57/89] fix: GSFANode with an array of edge weights was only
 right for symmetric and consistent graphs

---
 mdp/nodes/gsfa_nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index f4f76a5..ac66aa5 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -719,10 +719,11 @@ class CovDCovMatrix(object):
         # Update DCov Matrix
         if isinstance(edge_weights, numx.ndarray):
             weighted_num_diffs = edge_weights.sum()  # normalization constant R
-            prod1 = weighted_sum_prod_x  # TODO: eventually check these
-            # equations, they might only work if Q==R
+            # total weight of the edges that start or end at each sample
+            degrees = edge_weights.sum(axis=0) + edge_weights.sum(axis=1)
+            prod1 = mdp.utils.mult(x.T, x * degrees.reshape((num_samples, 1)))
             prod2 = mdp.utils.mult(mdp.utils.mult(x.T, edge_weights), x)
-            weighted_sum_prod_diffs = 2 * prod1 - 2 * prod2
+            weighted_sum_prod_diffs = prod1 - prod2 - prod2.T
             self.add_diffs(weighted_sum_prod_diffs, weighted_num_diffs,
                            weight=weight)
         else:
-- 
2.43.0


From d53ac72adf2da5ecafc0518336e3dd4c7f779146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 58/89] fix: GSFANode sliding windows counted one sample too
 many in the mean and covariance

---
 mdp/nodes/gsfa_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index ac66aa5..176af32 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -938,7 +938,7 @@ class CovDCovMatrix(object):
         sum_x = x_sel.sum(axis=0)
         sum_prod_x = mdp.utils.mult(x_sel.T, x)
         self.add_samples(sum_prod_x, sum_x,
-                         num_samples - (0.5 * window_halfwidth - 0.5), weight)
+                         num_samples - (0.5 * window_halfwidth + 0.5), weight)
 
         # Update DCov Matrix. First we compute the borders
         # Left border
@@ -1004,7 +1004,7 @@ class CovDCovMatrix(object):
         sum_x = x_sel.sum(axis=0)
         sum_prod_x = mdp.utils.mult(x_sel.T, x)
         self.add_samples(sum_prod_x, sum_x, num_samples -
-                         (0.5 * window_halfwidth - 0.5), weight)
+                         (0.5 * window_halfwidth + 0.5), weight)
 
         # This can be made faster (twice) due to symmetry
         for offset in range(-width, width + 1):
-- 
2.43.0


From eda022de73c711837e847e1abb6fd9a87435b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 59/89] fix: GSFANode smart_unlabeled3 scaled the sum of the
 labeled samples it still needed

---
 mdp/nodes/gsfa_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 176af32..4b1f940 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -346,7 +346,7 @@ class GSFANode(mdp.Node):
                     v_norm = v / C
                     N1_norm = N1 / C
 
-                    sum_x_labeled = self._covdcovmtx.sum_x.reshape((1, -1))
+                    sum_x_labeled = self._covdcovmtx.sum_x.reshape((1, -1)) + 0.0
                     sum_prod_x_labeled = self._covdcovmtx.sum_prod_x + 0.0
 
                     if verbose:
-- 
2.43.0


From 9640ba915e79ab210acb3944e0e5137652a3e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 60/89] fix: GSFANode.stop_training failed in verbose mode

---
 mdp/nodes/gsfa_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 4b1f940..7b58fa8 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -473,7 +473,7 @@ class GSFANode(mdp.Node):
             print("Finishing GSFA training: ", self._covdcovmtx.num_samples)
             print(" num_samples, and ", self._covdcovmtx.num_diffs,
                   " num_diffs")
-            print("DCov[0:3,0:3] is", self.dcov_mtx[0:3, 0:3])
+            print("DCov[0:3,0:3] is", dcov_mtx[0:3, 0:3])
 
         rng = self._set_range()
         # Solve the generalized eigenvalue problem
-- 
2.43.0


From 2bac242c556c5dd0763f4822066e058aeb913efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 61/89] fix: wrong block sizes in GSFANode raised TypeError
 instead of ValueError

---
 mdp/nodes/gsfa_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 7b58fa8..582daff 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -1090,7 +1090,7 @@ class CovDCovMatrix(object):
 
         if num_samples != numx.array(block_sizes).sum():
             err = "Inconsistency error: num_samples (%d)" % num_samples + \
-                "is not equal to sum of block_sizes: %d" % block_sizes
+                "is not equal to sum of block_sizes: %s" % str(block_sizes)
             raise ValueError(err)
 
         counter_sample = 0
-- 
2.43.0


From f88de4edabd3ca225de45620b84645a012206cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 62/89] fix: iGSFANode could not be created with expansion
 functions

---
 mdp/nodes/gsfa_nodes.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 582daff..7624426 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -1360,14 +1360,15 @@ class iGSFANode(mdp.Node):
         self.expansion_starting_point = expansion_starting_point
 
         # creates an expansion node
-        if expansion_funcs and self.expansion_output_dim is not None:
-            self.exp_node = GeneralExpansionNode(
-                funcs=expansion_funcs, output_dim=self.expansion_output_dim,
-                starting_point=self.expansion_starting_point)
-        elif expansion_funcs:
-            self.exp_node = GeneralExpansionNode(
-                funcs=expansion_funcs,
-                starting_point=self.expansion_starting_point)
+        if expansion_funcs:
+            expansion_args = {}
+            if self.expansion_output_dim is not None:
+                expansion_args['output_dim'] = self.expansion_output_dim
+            if self.expansion_starting_point is not None:
+                expansion_args['starting_point'] = \
+                    self.expansion_starting_point
+            self.exp_node = GeneralExpansionNode(funcs=expansion_funcs,
+                                                 **expansion_args)
         else:
             self.exp_node = None
 
-- 
2.43.0


From 247c3e829a7bf8a49899c8f252050cb9ebe48c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 63/89] fix: GSFANode fast sliding window was wrong for windows
 longer than half the data

---
 mdp/nodes/gsfa_nodes.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 7624426..6597b08 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -962,18 +962,12 @@ class CovDCovMatrix(object):
         x_full = x[width:num_samples - width, :]
         sum_prod_x_full = mdp.utils.mult(x_full.T, x_full)
 
-        Aacc123 = numx.zeros((dim, dim))
-        for i in range(0, 2 * width):  # [0, 2*width-1]
-            Aacc123 += (i + 1) * mdp.utils.mult(x[i:i + 1, :].T, x[i:i + 1, :])
-
-        for i in range(num_samples - 2 * width, num_samples):
-            Aacc123 += (num_samples - i) * mdp.utils.mult(x[i:i + 1, :].T,
-                                                          x[i:i + 1, :])
-
-        # intermediate values of x, which are connected 2*width+1 times
-        x_middle = x[2 * width:num_samples - 2 * width, :]
-
-        Aacc123 += (2 * width + 1) * mdp.utils.mult(x_middle.T, x_middle)
+        # each sample is connected to all the center samples within its window
+        num_centers = numx.minimum(numx.arange(1, num_samples + 1),
+                                   numx.arange(num_samples, 0, -1))
+        num_centers = numx.minimum(num_centers, min(2 * width + 1,
+                                                    num_samples - 2 * width))
+        Aacc123 = mdp.utils.mult(x.T, x * num_centers.reshape((-1, 1)))
 
         b = numx.zeros((num_samples + 1, dim))
         b[1:] = x.cumsum(axis=0)
-- 
2.43.0


From 3d3437e60f50756f204b92accc9fd30c6977af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 64/89] fix: RBMWithLabelsNode.sample_v returned samples which
 did not have the dtype of the node

---
 mdp/nodes/rbm_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index ab1f4a9..54282fc 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -350,7 +350,7 @@ class RBMWithLabelsNode(RBMNode):
 
         # ## visible units: logistic activation
         probs_v = old_div(1.,(1. + exp(-av)))
-        v = (probs_v > random(probs_v.shape)).astype('d')
+        v = (probs_v > random(probs_v.shape)).astype(self.dtype)
 
         # ## label units: softmax activation
         # subtract maximum to regularize exponent
@@ -360,7 +360,7 @@ class RBMWithLabelsNode(RBMNode):
 
         if sample_l:
             # ?? todo: I'm sure this can be optimized
-            l = numx.zeros((h.shape[0], ldim))
+            l = numx.zeros((h.shape[0], ldim), dtype=self.dtype)
             for t in range(h.shape[0]):
                 l[t, :] = mdp.numx_rand.multinomial(1, probs_l[t, :])
         else:
-- 
2.43.0


From 9bb98cef779e30892c1fce1cb5484361d97b707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:39 +0000
Subject: [PATCH 65/89] fix: CloneBiLayer ignored an incoming use_copies
 message with the id of the layer

---
 bimdp/hinet/bilayer.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index 9b0d8c1..906538b 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -100,10 +100,10 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         """
         pass
 
-    def _execute(self, x, msg=None):
+    def _execute(self, x, msg=None, use_copies=None):
         """Process the data through the internal nodes."""
-        if msg is not None:
-            self._extract_message_copy_flag(msg)
+        if use_copies is not None:
+            self.use_copies = use_copies
         y_results = []
         msg_results = []
         target = None
@@ -155,12 +155,12 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
             return hinet.Layer._inverse(self, x, *args, **kwargs)
         return super(CloneBiLayer, self)._inverse(x, *args, **kwargs)
 
-    def _train(self, x, msg=None):
+    def _train(self, x, msg=None, use_copies=None):
         """Perform single training step by training the internal nodes."""
         ## this code is mostly identical to the execute code,
         ## currently the only difference is that train is called
-        if msg is not None:
-            self._extract_message_copy_flag(msg)
+        if use_copies is not None:
+            self.use_copies = use_copies
         y_results = []
         msg_results = []
         target = None
@@ -205,14 +205,14 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         else:
             return y
 
-    def _stop_training(self, msg=None):
+    def _stop_training(self, msg=None, use_copies=None):
         """Call stop_training on the internal nodes.
 
         The outgoing result message is also searched for a use_copies key,
         which is then applied if found.
         """
-        if msg is not None:
-            self._extract_message_copy_flag(msg)
+        if use_copies is not None:
+            self.use_copies = use_copies
         target = None
         if self.use_copies:
             ## have to call stop_training for each node
-- 
2.43.0


From 0fb167faede41815d766fb44a2a5c9443d5d11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 66/89] fix: the gradient of a CloneBiLayer at the start of a
 flow was wrong

---
 bimdp/nodes/gradient.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bimdp/nodes/gradient.py b/bimdp/nodes/gradient.py
index 47c1493..5674afb 100644
--- a/bimdp/nodes/gradient.py
+++ b/bimdp/nodes/gradient.py
@@ -5,7 +5,7 @@ from builtins import str
 from builtins import range
 
 import mdp
-import bimdp
+from bimdp.hinet.bilayer import CloneBiLayer
 np = mdp.numx
 
 class NotDifferentiableException(mdp.NodeException):
@@ -146,6 +146,18 @@ def _layer_grad(self, x):
                 node._get_grad(x[:, in_start:in_stop])
     return grad
 
+@mdp.extension_method("gradient", CloneBiLayer, "_execute")
+def _clonebilayer_execute(self, x, msg=None, use_copies=None):
+    # the nodes need their part of the gradient, since the gradients with
+    # respect to their own inputs could not be combined
+    if (x is not None and msg is not None and
+        msg.get("method") == "gradient" and msg.get("grad") is None):
+        grad = np.zeros((len(x), x.shape[1], x.shape[1]))
+        diag_indices = np.arange(x.shape[1])
+        grad[:,diag_indices,diag_indices] = 1.0
+        msg["grad"] = grad
+    return self._non_extension__execute(x, msg, use_copies)
+
 # this is an optimized implementation, the original implementation is
 # used for reference in the unittest
 @mdp.extension_method("gradient", mdp.hinet.Switchboard, "_gradient")
-- 
2.43.0


From 55801ff0b9fa721da48407efc29eb275aaa2b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:00 +0000
Subject: [PATCH 67/89] fix: the rank deficit solvers of symeig dropped
 channels which were not blank

---
 mdp/utils/symeig_semidefinite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 5f3e138..04c1579 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -146,10 +146,8 @@ def _find_blank_data_idx(B, rank_threshold):
     zero_idx = (abs(B[0]) < rank_threshold).nonzero()[0]
     # For efficiency we just check the first line for zeros and fail fast.
     if len(zero_idx) > 0:
-        # If near-zero entries are in first line we check the whole columns:
-        #nonzerolines = (abs(numx.sum(B, 0)) > rank_threshold).nonzero()[0]
-        zero_idx = (numx.mean(abs(B[zero_idx]), 0) < \
-                rank_threshold).nonzero()[0]
+        # If near-zero entries are in first line we check the whole lines:
+        zero_idx = zero_idx[numx.amax(abs(B[zero_idx]), 1) < rank_threshold]
         if len(zero_idx) > 0:
             nonzero_idx = numx.arange(len(B))
             nonzero_idx[zero_idx] = -1
-- 
2.43.0


From d33ad33955a272229d0fcb8ea07572f9ceb14618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:26 +0000
Subject: [PATCH 68/89] fix: rank deficit solvers did not always report the
 rank deficit

---
 mdp/utils/symeig_semidefinite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 04c1579..a4336ac 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -114,8 +114,6 @@ def symeig_semidefinite_reg(
     m_off_sum = numx.sum(m[off:])
     if m_off_sum < 0.5:
         if off > 0:
-            if not dfc_out is None:
-                dfc_out.rank_deficit = off
             eg = eg[off:]
             ev = ev[:, off:]
     else:
@@ -124,6 +122,8 @@ def symeig_semidefinite_reg(
         m_idx = (m < 0.5).nonzero()[0]
         eg = eg[m_idx]
         ev = ev[:, m_idx]
+    if not dfc_out is None:
+        dfc_out.rank_deficit = len(m) - len(eg)
     if range is None:
         return eg, ev
     else:
@@ -426,9 +426,9 @@ def symeig_semidefinite_svd(
     off = 0
     while s[-1-off] < rank_threshold:
         off += 1
+    if not dfc_out is None:
+        dfc_out.rank_deficit = off
     if off > 0:
-        if not dfc_out is None:
-            dfc_out.rank_deficit = off
         s = s[:-off]
         U = U[:, :-off]
     X1 = mult(U, numx.diag(1.0 / s ** 0.5))
-- 
2.43.0


From 8acee1dd3b96e99c7b5d9ee2611d0b4383d11eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 69/89] fix: rank deficit solvers failed with IndexError or
 ValueError for a matrix of rank zero

---
 mdp/utils/symeig_semidefinite.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index a4336ac..348274b 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -57,6 +57,8 @@ from mdp import numx
 from ._symeig import SymeigException
 __docformat__ = "restructuredtext en"
 
+_RANK_ZERO_MSG = "All eigenvalues of B are zero."
+
 
 def symeig_semidefinite_reg(
         A, B = None, eigenvectors=True, turbo="on", range=None,
@@ -109,8 +111,10 @@ def symeig_semidefinite_reg(
     off = 0
     # In theory all values in m should be close to one or close to zero.
     # So we use the mean of these values as threshold to distinguish cases:
-    while m[off] > 0.5:
+    while off < len(m) and m[off] > 0.5:
         off += 1
+    if off == len(m):
+        raise SymeigException(_RANK_ZERO_MSG)
     m_off_sum = numx.sum(m[off:])
     if m_off_sum < 0.5:
         if off > 0:
@@ -201,6 +205,8 @@ def symeig_semidefinite_ldl(
     # and columns exist in B. So we circumvent this case:
     nonzero_idx = _find_blank_data_idx(B, rank_threshold)
     if not nonzero_idx is None:
+        if len(nonzero_idx) == 0:
+            raise SymeigException(_RANK_ZERO_MSG)
         orig_shape = B.shape
         B = B[nonzero_idx, :][:, nonzero_idx]
         A = A[nonzero_idx, :][:, nonzero_idx]
@@ -268,6 +274,8 @@ def symeig_semidefinite_ldl(
     dnz = (dgd > rank_threshold).nonzero()[0]
     dgd_sqrt_I = numx.sqrt(1.0/dgd[dnz])
     rank_deficit = len(dgd) - len(dnz) # later used
+    if len(dnz) == 0:
+        raise SymeigException(_RANK_ZERO_MSG)
 
     # c, lower, unitdiag, overwrite_c
     LI, _ = inv_tri(lu, 1, 1, 1) # invert triangular
@@ -344,6 +352,8 @@ def symeig_semidefinite_pca(
     # and columns exist in B. So we circumvent this case:
     nonzero_idx = _find_blank_data_idx(B, rank_threshold)
     if not nonzero_idx is None:
+        if len(nonzero_idx) == 0:
+            raise SymeigException(_RANK_ZERO_MSG)
         orig_shape = B.shape
         B = B[nonzero_idx, :][:, nonzero_idx]
         A = A[nonzero_idx, :][:, nonzero_idx]
@@ -353,8 +363,10 @@ def symeig_semidefinite_pca(
     eg, ev = mdp.utils.symeig(cov_mtx, None, True, turbo, None, type,
             overwrite)
     off = 0
-    while eg[off] < rank_threshold:
+    while off < len(eg) and eg[off] < rank_threshold:
         off += 1
+    if off == len(eg):
+        raise SymeigException(_RANK_ZERO_MSG)
     if not dfc_out is None:
         dfc_out.rank_deficit = off
     eg = 1/numx.sqrt(eg[off:])
@@ -416,6 +428,8 @@ def symeig_semidefinite_svd(
     # and columns exist in B. So we circumvent this case:
     nonzero_idx = _find_blank_data_idx(B, rank_threshold)
     if not nonzero_idx is None:
+        if len(nonzero_idx) == 0:
+            raise SymeigException(_RANK_ZERO_MSG)
         orig_shape = B.shape
         B = B[nonzero_idx, :][:, nonzero_idx]
         A = A[nonzero_idx, :][:, nonzero_idx]
@@ -424,8 +438,10 @@ def symeig_semidefinite_svd(
     cov_mtx = B
     U, s, _ = mdp.utils.svd(cov_mtx)
     off = 0
-    while s[-1-off] < rank_threshold:
+    while off < len(s) and s[-1-off] < rank_threshold:
         off += 1
+    if off == len(s):
+        raise SymeigException(_RANK_ZERO_MSG)
     if not dfc_out is None:
         dfc_out.rank_deficit = off
     if off > 0:
-- 
2.43.0


From 154586109765358f5ce09aa3f512104d09a5285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:56 +0000
Subject: [PATCH 70/89] fix: symeig returned nan for a matrix B with an
 eigenvalue which is exactly zero

---
 mdp/utils/_symeig.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/utils/_symeig.py b/mdp/utils/_symeig.py
index f31a352..50235c2 100644
--- a/mdp/utils/_symeig.py
+++ b/mdp/utils/_symeig.py
@@ -125,13 +125,13 @@ numarray.linear_algebra.eigenvectors with an interface compatible with symeig.
             # make B the identity matrix
             wB, ZB = numx_linalg.eigh(B)
             _assert_eigenvalues_real(wB, dtype)
-            if wB.real.min() < 0:
-                # If we proceeded with negative values here, this would let some
+            if wB.real.min() <= 0:
+                # If we proceeded with negative values (or zero) here, this would let some
                 # NumPy or SciPy versions cause nan values in the results.
                 # Such nan values would go through silently (or only with a warning,
                 # i.e. RuntimeWarning: invalid value encountered in sqrt)
                 # and cause hard to find issues later in user code outside mdp.
-                err = "Got negative eigenvalues: %s" % str(wB)
+                err = "Got negative or zero eigenvalues: %s" % str(wB)
                 raise SymeigException(err)
             ZB = old_div(ZB.real, numx.sqrt(wB.real))
             # transform A in the new basis: A = ZB^T * A * ZB
-- 
2.43.0


From 85999ec6d6fcd84952c4cb0be555e5ecb849853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:56 +0000
Subject: [PATCH 71/89] fix: WhiteningNode returned nan for components without
 variance

---
 mdp/nodes/pca_nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index f83aba4..83c6b8a 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -409,6 +409,11 @@ class WhiteningNode(PCANode):
         """
 
         super(WhiteningNode, self)._stop_training(debug)
+        if self.d.min() <= 0:
+            raise mdp.NodeException(
+                "Cannot whiten components without variance: %s.\n"
+                "You may either set output_dim to be smaller, "
+                "or set reduce=True" % str(self.d))
 
         ##### whiten the filters
         # self.v is now the _whitening_ matrix
-- 
2.43.0


From 31e19d094bd9f8ff5c293da94b08bdd1bacd7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:56 +0000
Subject: [PATCH 72/89] fix: output_dim of SFANode was wrong after a rank
 deficit

---
 mdp/nodes/sfa_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index d221a58..acf465e 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -314,6 +314,10 @@ class SFANode(Node):
             del self.cov_mtx
             del self.dcov_mtx
 
+        # there can be less components than requested (rank deficit)
+        if self.output_dim != self.d.shape[0]:
+            self._output_dim = self.d.shape[0]
+
         # store bias
         self._bias = mult(self.avg, self.sf)
 
-- 
2.43.0


From 94a41d6095594c1d5caa64e71d25fbe564b86eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 73/89] fix: QuadraticForm used eigenvectors which are not
 orthogonal for repeated eigenvalues

---
 mdp/utils/quad_forms.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index d1ee0bf..5263f26 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -50,11 +50,9 @@ class QuadraticForm(object):
                mdp.utils.mult(x, self.f) + self.c)
 
     def _eig_sort(self, x):
-        E, W = numx_linalg.eig(x)
-        E, W = E.real, W.real
-        idx = E.argsort()
-        E = E.take(idx)
-        W = W.take(idx, axis=1)
+        # x is symmetric: the eigenvalues are in ascending order and the
+        # eigenvectors are orthonormal
+        E, W = numx_linalg.eigh(x)
         return E, W
 
     def get_extrema(self, norm, tol = 1.E-4):
-- 
2.43.0


From fc117bb74a03f4d48c7984fc564ea0a2d582c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:29 +0000
Subject: [PATCH 74/89] fix: QuadraticForm.get_extrema failed or was wrong for
 singular H, f orthogonal to the top eigenvector, small norms and dtype 'f'

---
 mdp/utils/quad_forms.py | 43 ++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index 5263f26..49cfa9d 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -70,14 +70,15 @@ class QuadraticForm(object):
         else:
             H_definite_positive, H_definite_negative = False, False
             E, W = self._eig_sort(H)
-            if E[0] >= 0:
+            if E[0] > 0:
                 # H is positive definite
                 H_definite_positive = True
-            elif E[-1] <= 0:
+            elif E[-1] < 0:
                 # H is negative definite
                 H_definite_negative = True
 
-            x0 = mdp.numx_linalg.solve(-H, f)
+            if H_definite_positive or H_definite_negative:
+                x0 = -mdp.utils.mult(W, mdp.utils.mult(W.T, f)/E)
             if H_definite_positive and mdp.utils.norm2(x0) <= norm:
                 xmin = x0
                 # x0 is a minimum
@@ -93,26 +94,29 @@ class QuadraticForm(object):
         return xmax, xmin
 
     def _maximize(self, norm, tol = 1.E-4, x0 = None, factor = None):
-        H, f = self.H, self.f
+        # the bisection needs double precision
+        H = mdp.utils.refcast(self.H, 'd')
+        f = mdp.utils.refcast(self.f, 'd')
         if factor is not None:
             H = factor*H
             f = factor*f
         if x0 is not None:
-            x0 = mdp.utils.refcast(x0, self.dtype)
+            x0 = mdp.utils.refcast(x0, 'd')
             f = mdp.utils.mult(H, x0)+ f
             # c = 0.5*x0'*H*x0 + f'*x0 + c -> do we need it?
-        mu, V = self._eig_sort(H)
-        alpha = mdp.utils.mult(V.T, f).reshape((H.shape[0],))
+        mu, W = self._eig_sort(H)
+        alpha = mdp.utils.mult(W.T, f).reshape((H.shape[0],))
         # v_i = alpha_i * v_i (alpha is a raw_vector)
-        V = V*alpha
+        V = W*alpha
         # left bound for lambda
         ll = mu[-1] # eigenvalue's maximum
         # right bound for lambda
         lr = old_div(mdp.utils.norm2(f),norm) + ll
         # search by bisection until norm(x)**2 = norm**2
         norm_2 = norm**2
-        norm_x_2 = 0
-        while abs(norm_x_2-norm_2) > tol and old_div((lr-ll),lr) > epsilon:
+        norm_x_2 = numx.inf
+        eps_lambda = epsilon*max(abs(mu[0]), abs(lr))
+        while abs(norm_x_2-norm_2) > tol and lr-ll > eps_lambda:
             # bisection of the lambda-interval
             lambd = 0.5*(lr-ll)+ll
             # eigenvalues of (lambda*Id - H)^-1
@@ -124,10 +128,23 @@ class QuadraticForm(object):
                 ll = lambd
             else:
                 lr = lambd
-        x = (V*beta).sum(axis=1)
-        if x0:
+        if abs(norm_x_2-norm_2) > tol:
+            # f is (almost) orthogonal to the eigenvectors of the largest
+            # eigenvalue, the missing length is in their direction
+            top = (lr-mu) <= 2*eps_lambda
+            top[-1] = True
+            beta = numx.zeros(mu.shape)
+            beta[~top] = 1./(lr-mu[~top])
+            rest_2 = max(norm_2 - (alpha**2*beta**2).sum(), 0)
+            v = mdp.utils.mult(W[:, top], alpha[top])
+            if not v.any():
+                v = W[:, -1]
+            x = (V*beta).sum(axis=1) + v*(numx.sqrt(rest_2)/mdp.utils.norm2(v))
+        else:
+            x = (V*beta).sum(axis=1)
+        if x0 is not None:
             x = x + x0
-        return x
+        return mdp.utils.refcast(x, self.dtype)
 
     def get_invariances(self, xstar):
         """Compute invariances of the quadratic form at extremum 'xstar'.
-- 
2.43.0


From d212b797f1cd14ec76dce5723cc11b921b76573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:32 +0000
Subject: [PATCH 75/89] fix: utils.gabor was not centered by default for arrays
 which are not square

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index 237c5a1..1ef1397 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -491,7 +491,7 @@ def gabor(size, alpha, phi, freq, sgm, x0=None, res=1, ampl=1.):
 
     # init
     w, h = size
-    if x0 is None: x0 = (w//2, h//2)
+    if x0 is None: x0 = (h//2, w//2)
     y0, x0 = x0
 
     # some useful quantities
-- 
2.43.0


From 093343338477a88efdbd6b44155faf65b6c4b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 76/89] fix: utils.weighted_choice returned None for integer
 weights

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index 1ef1397..4c8c3b3 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -443,7 +443,7 @@ def weighted_choice(a_dict, normalize=True):
         d = a_dict.copy()
         s = sum(d.values())
         for key, val in list(d.items()):
-            d[key] = old_div(d[key], s)
+            d[key] = d[key] / s
     else:
         d = a_dict
     rand_num = random.random()
-- 
2.43.0


From fd56f2e04f642fd8f02ac09cf6433ec420b3fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 77/89] fix: NeuralGasNode did not remove all edges older than
 the maximal age

---
 mdp/nodes/neural_gas_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index 8b653d4..a8e7cd2 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -551,6 +551,6 @@ class NeuralGasNode(GrowingNeuralGasNode):
         :type edges: 
         """
         g = self.graph
-        for edge in self.graph.edges:
+        for edge in list(self.graph.edges):
             if edge.data.age > max_age:
                 g.remove_edge(edge)
-- 
2.43.0


From 7361f46af341c4d71c0e4cc76e4fade9ca1021bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 78/89] fix: training of the neural gas nodes changed the given
 start positions

---
 mdp/nodes/neural_gas_nodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index a8e7cd2..6401ce3 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -136,8 +136,9 @@ class GrowingNeuralGasNode(Node):
         if start_poss is not None:
             if self.dtype is None:
                 self.dtype = start_poss[0].dtype
-            node1 = self._add_node(self._refcast(start_poss[0]))
-            node2 = self._add_node(self._refcast(start_poss[1]))
+            # the positions are changed in-place during training
+            node1 = self._add_node(numx.array(start_poss[0], self.dtype))
+            node2 = self._add_node(numx.array(start_poss[1], self.dtype))
             self._add_edge(node1, node2)
 
     def _set_input_dim(self, n):
@@ -447,7 +448,8 @@ class NeuralGasNode(GrowingNeuralGasNode):
             if self.dtype is None:
                 self.dtype = start_poss[0].dtype
             for node_ind in range(self.num_nodes):
-                self._add_node(self._refcast(start_poss[node_ind]))
+                # the positions are changed in-place during training
+                self._add_node(numx.array(start_poss[node_ind], self.dtype))
         self.epoch = 0
 
 
-- 
2.43.0


From deab6b0292d1f650e0800455122cdb936b8de2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 79/89] fix: NeuralGasNode failed for integer values of lambda

---
 mdp/nodes/neural_gas_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index 6401ce3..01f1725 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -466,10 +466,10 @@ class NeuralGasNode(GrowingNeuralGasNode):
                 self._add_node(self._refcast(normal(0.0, 1.0, self.input_dim)))
 
         epoch = self.epoch
-        e_i = self.epsilon_i
-        e_f = self.epsilon_f
-        l_i = self.lambda_i
-        l_f = self.lambda_f
+        e_i = float(self.epsilon_i)
+        e_f = float(self.epsilon_f)
+        l_i = float(self.lambda_i)
+        l_f = float(self.lambda_f)
         T_i = float(self.max_age_i)
         T_f = float(self.max_age_f)
         max_epochs = float(self.max_epochs)
-- 
2.43.0


From 153510c33f9998261b0ecc2f1f631b38d4e75fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 80/89] fix: ISFANode ignored the ICA term for integer values
 of sfa_ica_coeff

---
 mdp/nodes/isfa_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index b8cc69e..afa4e2b 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -542,8 +542,8 @@ class ISFANode(Node):
         """
         ncomp = self.output_dim
         if ncomp > 1:
-            bica =  old_div(self.sfa_ica_coeff[1],(ncomp*(ncomp-1)))
-            bsfa = old_div(-self.sfa_ica_coeff[0],ncomp)
+            bica = self.sfa_ica_coeff[1] / (ncomp*(ncomp-1))
+            bsfa = -self.sfa_ica_coeff[0] / ncomp
         else:
             bica =  0.#self.sfa_ica_coeff[1]
             bsfa = -self.sfa_ica_coeff[0]
-- 
2.43.0


From 0554d355759d9c92c0ed740daae52129f2b2d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 81/89] fix: utils.progressinfo failed for an empty sequence

---
 mdp/utils/progress_bar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/progress_bar.py b/mdp/utils/progress_bar.py
index b113074..7a97c5c 100644
--- a/mdp/utils/progress_bar.py
+++ b/mdp/utils/progress_bar.py
@@ -239,6 +239,7 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
 
     # start main loop
     last = None
+    count = -1
     for count, value in enumerate(sequence):
         # generate progress info
         if iterate_on_items:
@@ -248,7 +249,7 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
         yield value
     else:
         # we need this for the 100% notice
-        if iterate_on_items:
+        if iterate_on_items or count < 0:
             last = _progress(1., last, style, layout)
         else:
             last = _progress(old_div((count+1),length), last, style, layout)
-- 
2.43.0


From dba5721313a0c1b1bf8b0111bbddc279a3e94810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 82/89] fix: utils.progressinfo with speed 'last' depended on
 earlier loops and failed without progress

---
 mdp/utils/progress_bar.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mdp/utils/progress_bar.py b/mdp/utils/progress_bar.py
index 7a97c5c..49b7dc7 100644
--- a/mdp/utils/progress_bar.py
+++ b/mdp/utils/progress_bar.py
@@ -64,7 +64,8 @@ def _progress(percent, last, style, layout):
                            box[percent_idx+len(percent_s):]])
     else:
         now = time.time()
-        if percent == 0:
+        if percent == 0 or (layout['speed'] == 'last' and
+                            percent == layout['last_percent']):
             # write the time box directly
             tbox = ''.join(['?', layout['separator'], '?'])
         else:
@@ -75,8 +76,8 @@ def _progress(percent, last, style, layout):
                 e_t_a = old_div(elapsed,percent) - elapsed
             else:
                 # instantaneous speed
-                progress = percent-_progress.last_percent
-                e_t_a = (1 - percent)/progress*(now-_progress.last_time)
+                progress = percent-layout['last_percent']
+                e_t_a = (1 - percent)/progress*(now-layout['last_time'])
             # build the time box
             tbox = ''.join([fmt_time(elapsed, layout['delimiters']),
                             layout['separator'],
@@ -95,8 +96,8 @@ def _progress(percent, last, style, layout):
                            ' ',
                            percent_s])
 
-        _progress.last_percent = percent
-        _progress.last_time = now
+        layout['last_percent'] = percent
+        layout['last_time'] = now
 
     # print it only if something changed from last time
     if box != last:
@@ -231,6 +232,8 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
                    'separator': ' - ',
                    't_start' : time.time()
                    }
+        layout['last_percent'] = 0.
+        layout['last_time'] = layout['t_start']
         if custom is not None:
             layout.update(custom)
     else:
-- 
2.43.0


From 2944613eebcd9ad82bfa57138f00136857ac4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:28 +0000
Subject: [PATCH 83/89] fix: ISFANode failed for a single number as icaweights
 or sfaweights and when reporting weights of the wrong length

---
 mdp/nodes/isfa_nodes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index afa4e2b..0707325 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -195,9 +195,12 @@ class ISFANode(Node):
         if icaweights is None:
             self.icaweights = 1.
         else:
+            if numx.ndim(icaweights) == 0:
+                # all matrices are weighted the same
+                icaweights = [icaweights]*len(lags)
             if (len(icaweights) != len(lags)):
                 err = ("icaweights vector length is %d, "
-                       "should be %d" % (str(len(icaweights)), str(len(lags))))
+                       "should be %d" % (len(icaweights), len(lags)))
                 raise NodeException(err)
             self.icaweights = icaweights
 
@@ -205,9 +208,12 @@ class ISFANode(Node):
             self.sfaweights = [0]*len(lags)
             self.sfaweights[0] = 1.
         else:
+            if numx.ndim(sfaweights) == 0:
+                # all matrices are weighted the same
+                sfaweights = [sfaweights]*len(lags)
             if (len(sfaweights) != len(lags)):
                 err = ("sfaweights vector length is %d, "
-                       "should be %d" % (str(len(sfaweights)), str(len(lags))))
+                       "should be %d" % (len(sfaweights), len(lags)))
                 raise NodeException(err)
             self.sfaweights = sfaweights
 
-- 
2.43.0


From 0534168b8729bab29c64750b625568db65445236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:28 +0000
Subject: [PATCH 84/89] fix: ISFANode.stop_training failed for the documented
 list of covariance matrices and changed those it was given

---
 mdp/nodes/isfa_nodes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index 0707325..2fc4aaf 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -5,6 +5,7 @@ from builtins import range
 from past.utils import old_div
 __docformat__ = "restructuredtext en"
 
+import copy as _copy
 import sys as _sys
 import mdp
 from mdp import Node, NodeException, numx, numx_rand
@@ -573,6 +574,15 @@ class ISFANode(Node):
             covs = MultipleCovarianceMatrices(covs)
             # symmetrize the cov matrices
             covs.symmetrize()
+        elif isinstance(covs, MultipleCovarianceMatrices):
+            # the matrices are rotated, leave those of the caller alone
+            covs = covs.copy()
+        else:
+            # covariance matrices learnt from white data, which the caller
+            # may want to use again
+            covs = [_copy.deepcopy(cov).fix()[0] for cov in covs]
+            covs = MultipleCovarianceMatrices(covs)
+            covs.symmetrize()
         self.covs = covs
 
     def _optimize(self):
-- 
2.43.0


From 4d56ee5ac0456ec7040f3ca4aab760abec807f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:14 +0000
Subject: [PATCH 85/89] fix: TDSEPNode ignored white_parm

---
 mdp/nodes/ica_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 4a9fe03..426a6b7 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -1095,7 +1095,7 @@ class TDSEPNode(ISFANode, ProjectMatrixMixin):
                                         icaweights=None, sfaweights=None,
                                         whitened=whitened,
                                         white_comp=white_comp,
-                                        white_parm = None,
+                                        white_parm = white_parm,
                                         eps_contrast=limit,
                                         max_iter=max_iter, RP=None,
                                         verbose=verbose,
-- 
2.43.0


From be8e82d2c11089ef5c9ca6dac84a8694c55463de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:12 +0000
Subject: [PATCH 86/89] fix: ISFANode skipped the rotation which brings the
 contrast to zero

---
 mdp/nodes/isfa_nodes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index 2fc4aaf..55ac333 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -735,7 +735,7 @@ class ISFANode(Node):
             # get the angle that minimizes the contrast
             # and the contrast value
             angle, contrast = self._givens_angle(i, j, covs)
-            if contrast == 0:
+            if contrast == 0 and prev_contrast == 0:
                 # we hit numerical precision in case when b_sfa == 0
                 # we can only break things from here on, better quit!
                 max_increase = -1
@@ -758,6 +758,11 @@ class ISFANode(Node):
             max_increase = max(max_increase, relative_diff)
             prev_contrast = contrast
 
+            if contrast == 0:
+                # this rotation was the last useful one, see above
+                max_increase = -1
+                break
+
         return max_increase, covs, Q, contrast
 
     def _stop_training(self, covs=None):
-- 
2.43.0


From a0f69a5d9c4e447bf4fdbaa89531288f30267a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 87/89] fix: cumulating nodes were trained on wrong data when
 the arrays of earlier chunks were used again

---
 mdp/signal_node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 306cbb6..96340d0 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -788,7 +788,9 @@ def VariadicCumulator(*fields):
             """Collect all input data in a list."""
             self.tlen += args[0].shape[0]
             for field, data in zip(self._cumulator_fields, args):
-                getattr(self, field).append(data)
+                # the caller may go on using the array, e.g. fill it with the
+                # next chunk
+                getattr(self, field).append(numx.array(data))
 
         def _stop_training(self, *args, **kwargs):
             """Concatenate the collected data in a single array."""
-- 
2.43.0


From 977a2f6f62ef592509435be5952e86e47e2dfa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 88/89] fix: executing a flow on an iterator which uses its
 array again gave wrong results for identity mappings

---
 bimdp/biflow.py     |  3 +++
 mdp/linear_flows.py | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 48040d3..ec4bfa1 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -350,6 +350,9 @@ class BiFlow(mdp.Flow):
             # check if all y have the same type and store it
             # note that the checks for msg are less restrictive
             if y is not None:
+                if x is not None and n.may_share_memory(x, y):
+                    # x may be used again for the next chunk
+                    y = y.copy()
                 if y_results is None:
                     y_results = [y]
                 elif y_results is False:
diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 285d07f..b3f38af 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -377,7 +377,11 @@ class Flow(object):
         empty_iterator = True
         for x in iterable:
             empty_iterator = False
-            res.append(self._execute_seq(x, nodenr))
+            y = self._execute_seq(x, nodenr)
+            if numx.may_share_memory(x, y):
+                # x may be used again for the next chunk
+                y = y.copy()
+            res.append(y)
         if empty_iterator:
             errstr = ("The execute data iterator is empty.")
             raise FlowException(errstr)
@@ -413,7 +417,11 @@ class Flow(object):
         empty_iterator = True
         for x in iterable:
             empty_iterator = False
-            res.append(self._inverse_seq(x))
+            y = self._inverse_seq(x)
+            if numx.may_share_memory(x, y):
+                # x may be used again for the next chunk
+                y = y.copy()
+            res.append(y)
         if empty_iterator:
             errstr = ("The inverse data iterator is empty.")
             raise FlowException(errstr)
-- 
2.43.0


From 78c679781090e0b00f70654d7e6d7e2c4238aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:33 +0000
Subject: [PATCH 89/89] fix: HistogramNode was trained on wrong data when the
 array of the first chunk was used again

---
 mdp/nodes/misc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 53fb3a6..0ce356c 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -902,7 +902,7 @@ class HistogramNode(PreserveDimNode):
         if self.data_hist is not None:
             self.data_hist = numx.concatenate([self.data_hist, x])
         else:
-            self.data_hist = x
+            self.data_hist = x.copy()
 
     def _stop_training(self):
         """Pickle the histogram data to file and clear it if required."""
-- 
2.43.0

