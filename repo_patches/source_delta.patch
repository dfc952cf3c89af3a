From ac8481b3c1c7341e86eb1b5e4de29e09dffee2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 01/32] fix: set_num_servers counts agents in service, not old
 servers

After a decrease that left more agents in service than servers, a later
increase started too many services, and going from infinitely many to
infinitely many servers raised a TypeError.
---
 queueing_tool/queues/queue_servers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 6a196cc..1290263 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -690,7 +690,10 @@ class QueueServer(object):
             the_str = "n must be a positive integer or infinity.\n{0}"
             raise ValueError(the_str.format(str(self)))
         else:
-            agents_to_queue = max(min(n - self.num_servers, len(self.queue)), 0)
+            # The number of agents in service can differ from the current
+            # number of servers if the latter was decreased earlier.
+            num_servicing = self.num_system - len(self.queue)
+            agents_to_queue = max(min(n - num_servicing, len(self.queue)), 0)
 
             for _ in range(agents_to_queue):
                 self._service_from_queue()
-- 
2.43.0


From 8ca85b73304a0891a6d6fd53157ee4625e38d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 02/32] fix: activating a queue never exceeds active_cap

set_active created one more external arrival each time it was called after
the cap had been reached (and one with a cap of zero).
---
 queueing_tool/queues/queue_extentions.py | 4 +++-
 queueing_tool/queues/queue_servers.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 2a5150f..0ebf226 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -309,7 +309,9 @@ class InfoQueue(LossQueue):
             self._num_total += 1
             heappush(self._arrivals, agent)
         else:
-            if self._current_t >= self._next_ct:
+            if self._oArrivals >= self.active_cap:
+                self._active = False
+            elif self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 1290263..9b01543 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -360,7 +360,9 @@ class QueueServer(object):
             self._num_total += 1
             heappush(self._arrivals, agent)
         else:
-            if self._current_t >= self._next_ct:
+            if self._oArrivals >= self.active_cap:
+                self._active = False
+            elif self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
-- 
2.43.0


From 3e4d9204b6411d662667780cbe8d714a4c6fab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 03/32] fix: InfoQueue honours deactive_t instead of raising
 AttributeError

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 0ebf226..fb6261c 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -315,7 +315,7 @@ class InfoQueue(LossQueue):
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
-                    self.active = False
+                    self._active = False
                     return
 
                 self._num_total += 1
-- 
2.43.0


From 5c144931eff9889185eaf463dbef61efddfe3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 04/32] fix: clearing a NullQueue discards the data it
 collected

---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 9b01543..c6b4181 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -958,4 +958,4 @@ class NullQueue(QueueServer):
         return color
 
     def clear(self):
-        pass
+        self.data = {}
-- 
2.43.0


From 59d821a69ee1c32c5e360c533be791e52e7101de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 05/32] fix: ResourceAgent takes a resource only when it
 departs

queue_action is called on arrival, at the start of service and on departure;
the agent acted each time, so it took a server on arrival, dropped it without
giving it back when its service began and took another one on departure.
---
 queueing_tool/queues/queue_extentions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index fb6261c..0907349 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -43,15 +43,11 @@ class ResourceAgent(Agent):
             The instance of the queue that the ``ResourceAgent`` will
             interact with.
         """
-        if isinstance(queue, ResourceQueue):
-            if self._has_resource:
-                self._has_resource = False
-                self._had_resource = True
-            else:
-                if queue.num_servers > 0:
-                    queue.set_num_servers(queue.num_servers - 1)
-                    self._has_resource = True
-                    self._had_resource = False
+        if isinstance(queue, ResourceQueue) and args and args[0] == 2:
+            if not self._has_resource and queue.num_servers > 0:
+                queue.set_num_servers(queue.num_servers - 1)
+                self._has_resource = True
+                self._had_resource = False
 
 
 class ResourceQueue(LossQueue):
@@ -138,6 +134,8 @@ class ResourceQueue(LossQueue):
                     arrival = heappop(self._arrivals)
                     self._current_t = arrival._time
                     self._num_total -= 1
+                    arrival._has_resource = False
+                    arrival._had_resource = True
                     self.set_num_servers(self.num_servers + 1)
 
                     if self.collect_data:
-- 
2.43.0


From ab13fdf58e800a42f4b74591f27ef6838ea8f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 06/32] fix: a full ResourceQueue blocks like a LossQueue

When it was full the queue stopped the stream of external arrivals, counted
the rejected agent as an arrival, did not tell the agent about its loss and
ignored the buffer that at_capacity() promises, so that agents moving inside
a network were lost. Agents waiting in the buffer start service when a
resource is returned.
---
 queueing_tool/queues/queue_extentions.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 0907349..79f2837 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -104,6 +104,10 @@ class ResourceQueue(LossQueue):
         if n > self.max_servers:
             self.over_max += 1
 
+        while len(self.queue) > 0 and self.num_system - len(self.queue) < n:
+            self._service_from_queue()
+            self._update_time()
+
     def next_event(self):
         """Simulates the queue forward one event.
 
@@ -150,26 +154,8 @@ class ResourceQueue(LossQueue):
                     else:
                         self._time = self._departures[0]._time
 
-                elif self.num_system < self.num_servers:
-                    super(ResourceQueue, self).next_event()
-
                 else:
-                    self.num_blocked += 1
-                    self._num_arrivals += 1
-                    self._num_total -= 1
-                    arrival = heappop(self._arrivals)
-                    self._current_t = arrival._time
-
-                    if self.collect_data:
-                        if arrival.agent_id not in self.data:
-                            self.data[arrival.agent_id] = [[arrival._time, 0, 0, len(self.queue), self.num_system]]
-                        else:
-                            self.data[arrival.agent_id].append([arrival._time, 0, 0, len(self.queue), self.num_system])
-
-                    if self._arrivals[0]._time < self._departures[0]._time:
-                        self._time = self._arrivals[0]._time
-                    else:
-                        self._time = self._departures[0]._time
+                    super(ResourceQueue, self).next_event()
         else:
             return super(ResourceQueue, self).next_event()
 
-- 
2.43.0


From 6d86974dca62ed08442e90c446cb1312354a1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 07/32] fix: InfoQueue learns from an arrival that coincides
 with a departure

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 79f2837..8ac7089 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -316,7 +316,7 @@ class InfoQueue(LossQueue):
             self._time = self._arrivals[0]._time
 
     def next_event(self):
-        if self._arrivals[0]._time < self._departures[0]._time:
+        if self._arrivals[0]._time <= self._departures[0]._time:
             self.extract_information(self._arrivals[0])
 
         return super(InfoQueue, self).next_event()
-- 
2.43.0


From 40d5e7c900e35ff7c59f443d7054da9e9534d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 08/32] fix: the event heap never returns a superseded entry or
 leaves its storage

Popping an empty heap and pushing to an empty or unknown slot read and wrote
outside the arrays. An old entry became valid again when its queue returned to
the same time, so that one event could be popped twice.
---
 queueing_tool/network/priority_queue.pyx | 43 ++++++++++++------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 44c72f6..c1ca4a6 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -54,41 +54,42 @@ cdef class PriorityQueue:
     def arraysize(self):
         return self.actual_size
 
-    @cython.boundscheck(False)
-    @cython.wraparound(False)
-    @cython.nonecheck(False)
+    def peek(self):
+        """Returns the entry that pop would return without removing it."""
+        while self.size > 0:
+            self.next_time = self.sorted_times[0]
+            self.next_node = self.sorted_edges[0]
+            if self.next_time == self.q_times[self.next_node]:
+                return self.next_time, self.next_node
+            self.heappop()
+        return None
+
     def pop(self):
-        cdef double t
-        cdef int k
-
-        self.heappop()
-        with nogil:
-            while self.next_time != self.q_times[self.next_node]:
-                if self.size == 0:
-                    self.size -= 1
-                    break
-                self.heappop()
-
-        if self.size < 0:
-            self.size += 1
-            return None
-        return self.next_time, self.next_node
+        key = self.peek()
+        if key is not None:
+            self.heappop()
+            # Any other entry of this node is out of date.
+            self.q_times[key[1]] = float('inf')
+        return key
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.nonecheck(False)
     def push(self, double t, int k):
 
+        if k < 0 or k >= self.q_times.shape[0]:
+            raise IndexError("There is no node {0}.".format(k))
+
         self.q_times[k] = t
         if self.size < self.actual_size:
             self.sorted_times[self.size] = t
             self.sorted_edges[self.size] = k
 
         else:
-            array.resize_smart(self.array_times, 2 * self.size)
-            array.resize_smart(self.array_edges, 2 * self.size)
+            self.actual_size = 2 * self.size + 1
+            array.resize_smart(self.array_times, self.actual_size)
+            array.resize_smart(self.array_edges, self.actual_size)
 
-            self.actual_size *= 2
             self.sorted_times = self.array_times
             self.sorted_edges = self.array_edges
 
-- 
2.43.0


From 12090710ebe5f7d9e79280ea52dcc541b9009a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 09/32] fix: a network tells the truth about its next event and
 its clock

The time and the description of the next event came from superseded heap
entries or from another queue on ties, simulating a drained network could raise
a TypeError or count events that do not exist, and it set the clock to
infinity.
---
 queueing_tool/network/queue_network.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3547f21..e8ce771 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -401,12 +401,8 @@ class QueueNetwork(object):
 
     @property
     def time(self):
-        if self._fancy_heap.size > 0:
-            e = self._fancy_heap.array_edges[0]
-            t = self.edge2queue[e]._time
-        else:
-            t = np.infty
-        return t
+        key = self._fancy_heap.peek()
+        return np.infty if key is None else key[0]
 
     def animate(self, out=None, t=None, line_kwargs=None,
                 scatter_kwargs=None, **kwargs):
@@ -998,14 +994,12 @@ class QueueNetwork(object):
             The edge index of the edge that this event will occur at.
             If there are no events then ``None`` is returned.
         """
-        if self._fancy_heap.size == 0:
+        key = self._fancy_heap.peek()
+        if key is None:
             event_type = 'Nothing'
             edge_index = None
         else:
-            s = [q._key() for q in self.edge2queue]
-            s.sort()
-            e = s[0][1]
-            q = self.edge2queue[e]
+            q = self.edge2queue[key[1]]
 
             event_type = 'Arrival' if q.next_event_description() == 1 else 'Departure'
             edge_index = q.edge[2]
@@ -1296,15 +1290,14 @@ class QueueNetwork(object):
                 self._simulate_next_event(slow=False)
         else:
             now = self._t
-            while self._t < now + t:
+            while self._t < now + t and self.time < np.infty:
                 self._simulate_next_event(slow=False)
 
     def _simulate_next_event(self, slow=True):
-        if self._fancy_heap.size == 0:
-            self._t = np.infty
+        q1k = self._fancy_heap.pop()
+        if q1k is None:
             return
 
-        q1k = self._fancy_heap.pop()
         q1t = q1k[0]
         q1 = self.edge2queue[q1k[1]]
         e1 = q1.edge[2]
-- 
2.43.0


From 82bf4a6366d4672ecb41ec9f79d12f7baac592b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 10/32] fix: an agent moving to a queue goes before a
 simultaneous outside arrival

When an arrival from outside was due at the very time an agent moved to the
queue, the outside arrival was processed instead of the agent, which was
scheduled only, and turned away if the queue had become full.
---
 queueing_tool/queues/queue_extentions.py | 3 +--
 queueing_tool/queues/queue_servers.py    | 6 ++++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 8ac7089..d2d3531 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -290,8 +290,7 @@ class InfoQueue(LossQueue):
 
     def _add_arrival(self, agent=None):
         if agent is not None:
-            self._num_total += 1
-            heappush(self._arrivals, agent)
+            super(InfoQueue, self)._add_arrival(agent)
         else:
             if self._oArrivals >= self.active_cap:
                 self._active = False
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index c6b4181..0b0021f 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -359,6 +359,12 @@ class QueueServer(object):
         if agent is not None:
             self._num_total += 1
             heappush(self._arrivals, agent)
+            # An agent from inside the network arrives right away, so it
+            # precedes an arrival from outside scheduled for the same time.
+            first = self._arrivals[0]
+            if first is not agent and first._time == agent._time:
+                k = [a is agent for a in self._arrivals].index(True)
+                self._arrivals[0], self._arrivals[k] = agent, first
         else:
             if self._oArrivals >= self.active_cap:
                 self._active = False
-- 
2.43.0


From 569aa3696829554e1b4a4c15e58da1a7cf074a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 11/32] fix: initializing again respects max_agents and the
 network clock

---
 queueing_tool/network/queue_network.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index e8ce771..e3e92f5 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -969,12 +969,15 @@ class QueueNetwork(object):
         if len(queues) == 0:
             raise QueueingToolError("There were no queues to initialize.")
 
-        if len(queues) > self.max_agents:
-            queues = queues[:self.max_agents]
-
         for ei in queues:
-            self.edge2queue[ei].set_active()
-            self.num_agents[ei] = self.edge2queue[ei]._num_total
+            q = self.edge2queue[ei]
+            if q._active:
+                continue
+            if np.sum(self.num_agents) >= self.max_agents:
+                break
+            q._current_t = max(q._current_t, self._t)
+            q.set_active()
+            self.num_agents[ei] = q._num_total
 
         keys = [q._key() for q in self.edge2queue if q._time < np.infty]
         self._fancy_heap = PriorityQueue(keys, self.nE)
-- 
2.43.0


From b4129ef2679b5c05258ce31c43aab868882bf62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 12/32] fix: edges added in bulk get an edge index

---
 queueing_tool/graph/graph_wrapper.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 656e13d..a6c96a7 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -262,6 +262,17 @@ class QueueNetworkDiGraph(nx.DiGraph):
             self.edge_index[e] = self._nE
             self._nE += 1
 
+    def add_edges_from(self, ebunch_to_add, **attr):
+        ebunch_to_add = list(ebunch_to_add)
+        super(QueueNetworkDiGraph, self).add_edges_from(ebunch_to_add, **attr)
+
+        # The indices are not there yet when the graph is being constructed.
+        if hasattr(self, 'edge_index'):
+            for e in ebunch_to_add:
+                if (e[0], e[1]) not in self.edge_index:
+                    self.edge_index[(e[0], e[1])] = self._nE
+                    self._nE += 1
+
     def out_neighbours(self, v):
         return [e[1] for e in self.out_edges(v)]
 
-- 
2.43.0


From 87858b1b593abd0e2dfe5f6392debf429ed5afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 13/32] fix: a property may have the name of a method of the
 graph

---
 queueing_tool/graph/graph_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index a6c96a7..9fc1298 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -284,14 +284,14 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
     def set_ep(self, e, edge_property, value):
         self.adj[e[0]][e[1]][edge_property] = value
-        if hasattr(self, edge_property):
-            attr = getattr(self, edge_property)
+        attr = getattr(self, edge_property, None)
+        if isinstance(attr, (list, np.ndarray)):
             attr[self.edge_index[e]] = value
 
     def set_vp(self, v, vertex_property, value):
         self.nodes[v][vertex_property] = value
-        if hasattr(self, vertex_property):
-            attr = getattr(self, vertex_property)
+        attr = getattr(self, vertex_property, None)
+        if isinstance(attr, (list, np.ndarray)):
             attr[v] = value
 
     def vertex_properties(self):
-- 
2.43.0


From 3912c35235f6c1c7f75d24c4e45e401e463e0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 14/32] fix: set_transitions refuses probabilities on absent
 edges, in any vertex order, and as a whole

---
 queueing_tool/network/queue_network.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index e3e92f5..5de292a 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1104,23 +1104,28 @@ class QueueNetwork(object):
                 if key not in self.g.nodes:
                     msg = "One of the keys don't correspond to a vertex."
                     raise ValueError(msg)
-                elif len(self.out_edges[key]) > 0 and not np.isclose(sum(probs), 1):
+
+                routed = [value.get(e[1], 0) for e in self.g.out_edges(key)]
+                if len(routed) > 0 and not np.allclose([sum(probs), sum(routed)], 1):
                     msg = "Sum of transition probabilities at a vertex was not 1."
                     raise ValueError(msg)
                 elif (np.array(probs) < 0).any():
                     msg = "Some transition probabilities were negative."
                     raise ValueError(msg)
 
+            for key, value in mat.items():
                 for k, e in enumerate(sorted(self.g.out_edges(key))):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
         elif isinstance(mat, np.ndarray):
-            non_terminal = np.array([self.g.out_degree(v) > 0 for v in self.g.nodes()])
             if mat.shape != (self.nV, self.nV):
                 msg = ("Matrix is the wrong shape, should "
                        "be {0} x {1}.").format(self.nV, self.nV)
                 raise ValueError(msg)
-            elif not np.allclose(np.sum(mat[non_terminal, :], axis=1), 1):
+
+            non_terminal = [v for v in range(self.nV) if self.g.out_degree(v) > 0]
+            routed = [sum(mat[e] for e in self.g.out_edges(v)) for v in non_terminal]
+            if not np.allclose(np.sum(mat[non_terminal, :], axis=1), 1) or not np.allclose(routed, 1):
                 msg = "Sum of transition probabilities at a vertex was not 1."
                 raise ValueError(msg)
             elif (mat < 0).any():
-- 
2.43.0


From e7863173e3c00b63da8a1d2c03ea1584fe64aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 15/32] fix: adjacency2graph leaves its arguments alone and
 takes empty edge types

---
 queueing_tool/graph/graph_wrapper.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 9fc1298..6461222 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -28,15 +28,10 @@ def _dict2dict(adj_dict):
     """Takes a dictionary based representation of an adjacency list
     and returns a dict of dicts based representation.
     """
-    item = adj_dict.popitem()
-    adj_dict[item[0]] = item[1]
-    if not isinstance(item[1], dict):
-        new_dict = {}
-        for key, value in adj_dict.items():
-            new_dict[key] = {v: {} for v in value}
-
-        adj_dict = new_dict
-    return adj_dict
+    return {
+        key: dict(value) if isinstance(value, dict) else {v: {} for v in value}
+        for key, value in adj_dict.items()
+    }
 
 
 def _adjacency_adjust(adjacency, adjust, is_directed):
@@ -172,7 +167,7 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
 
     for u, ty in edge_type.items():
         for v, et in ty.items():
-            adjacency[u][v]['edge_type'] = et
+            adjacency[u][v] = dict(adjacency[u][v], edge_type=et)
 
     g = nx.from_dict_of_dicts(adjacency, create_using=nx.DiGraph())
     adjacency = nx.to_dict_of_dicts(g)
-- 
2.43.0


From 589ad86e5bec751fd17779a06e719afe3e907810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 16/32] fix: constructors leave the dictionaries given to them
 alone

---
 queueing_tool/graph/graph_preparation.py | 7 ++++---
 queueing_tool/network/queue_network.py   | 5 +++--
 queueing_tool/queues/queue_servers.py    | 7 ++-----
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index e751d00..ecc4c70 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -163,10 +163,11 @@ def _set_queues(g, q_cls, q_arg, has_cap):
         eType = g.ep(e, 'edge_type')
         qedge = (e[0], e[1], g.edge_index[e], eType)
 
-        if has_cap and 'num_servers' not in q_arg[eType]:
+        args = q_arg[eType]
+        if has_cap and 'num_servers' not in args:
             cap = g.vp(e[1], 'cap') if g.vp(e[1], 'cap') is not None else 0
-            q_arg[eType]['num_servers'] = max(cap, 1)
+            args = dict(args, num_servers=max(cap, 1))
 
-        queues[qedge[2]] = q_cls[eType](edge=qedge, **q_arg[eType])
+        queues[qedge[2]] = q_cls[eType](edge=qedge, **args)
 
     return queues
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 5de292a..2a7c49f 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -319,8 +319,7 @@ class QueueNetwork(object):
         self._fancy_heap = PriorityQueue()
         self._blocking = True if blocking.lower() != 'rs' else False
 
-        if colors is None:
-            colors = {}
+        colors = {} if colors is None else dict(colors)
 
         for key, value in self.default_colors.items():
             if key not in colors:
@@ -331,12 +330,14 @@ class QueueNetwork(object):
         if q_classes is None:
             q_classes = self.default_classes
         else:
+            q_classes = dict(q_classes)
             for k in set(self.default_classes.keys()) - set(q_classes.keys()):
                 q_classes[k] = self.default_classes[k]
 
         if q_args is None:
             q_args = {k: {} for k in range(5)}
         else:
+            q_args = {k: dict(args) for k, args in q_args.items()}
             for k in set(q_classes.keys()) - set(q_args.keys()):
                 q_args[k] = {}
 
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 0b0021f..bad009c 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -325,12 +325,9 @@ class QueueServer(object):
         if isinstance(seed, numbers.Integral):
             np.random.seed(seed)
 
+        self.colors = dict(self._default_colors)
         if colors is not None:
-            self.colors = colors
-            for col in set(self._default_colors.keys()) - set(self.colors.keys()):
-                self.colors[col] = self._default_colors[col]
-        else:
-            self.colors = self._default_colors
+            self.colors.update(colors)
 
     @property
     def active(self):
-- 
2.43.0


From b8aa9a2e001bb359b14f8f805c9dffc3371ae97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 17/32] fix: any edge type may be used when only its class is
 given

---
 queueing_tool/network/queue_network.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 2a7c49f..ee02520 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -335,11 +335,11 @@ class QueueNetwork(object):
                 q_classes[k] = self.default_classes[k]
 
         if q_args is None:
-            q_args = {k: {} for k in range(5)}
-        else:
-            q_args = {k: dict(args) for k, args in q_args.items()}
-            for k in set(q_classes.keys()) - set(q_args.keys()):
-                q_args[k] = {}
+            q_args = {}
+
+        q_args = {k: dict(args) for k, args in q_args.items()}
+        for k in set(q_classes.keys()) - set(q_args.keys()):
+            q_args[k] = {}
 
         for key, args in q_args.items():
             if 'colors' not in args:
-- 
2.43.0


From 3ef9070d09b46b66aaa1d80b27b2b4122def37f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 18/32] fix: a thinned arrival never falls where the rate is
 zero

---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index bad009c..0ba28a7 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -73,7 +73,7 @@ def poisson_random_measure(t, rate, rate_max):
     """
     scale = 1.0 / rate_max
     t = t + exponential(scale)
-    while rate_max * uniform() > rate(t):
+    while rate_max * uniform() >= rate(t):
         t = t + exponential(scale)
     return t
 
-- 
2.43.0


From 3427c550ec1d0efef3b99616f00a5444ddbf209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 19/32] fix: minimal_random_graph keeps a lone vertex and all
 pairs at the connecting distance

---
 queueing_tool/graph/graph_generation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 87b6cdc..2a6cbd1 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -223,12 +223,15 @@ def minimal_random_graph(num_vertices, seed=None, **kwargs):
 
     g = nx.Graph()
 
-    for n1, n2, dummy in edges:
+    longest = 0.0
+    for n1, n2, distance in edges:
+        if unionF.nClusters == 1 and distance > longest:
+            break
         unionF.union(n1, n2)
         g.add_edge(n1, n2)
-        if unionF.nClusters == 1:
-            break
+        longest = distance
 
+    g.add_nodes_from(range(num_vertices))
     pos = {j: p for j, p in enumerate(points)}
     g = QueueNetworkDiGraph(g.to_directed())
     g.set_pos(pos)
-- 
2.43.0


From 93a0b1e9219f1e6e4b68def5754c5f1224027363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 20/32] fix: set_types_rank marks no vertex when no top share
 is asked for

---
 queueing_tool/graph/graph_generation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 2a6cbd1..9ddd658 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -379,13 +379,16 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
 
     tmp = np.sort(np.array(rank))
     nDests = int(np.ceil(g.number_of_nodes() * pType2))
-    dests = np.where(rank >= tmp[-nDests])[0]
+    if nDests > 0:
+        dests = np.where(rank >= tmp[-nDests])[0]
+    else:
+        dests = np.array([], int)
 
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    dest_pos = np.array([g.vp(v, 'pos') for v in dests])
-    nFCQ = int(pType3 * g.number_of_nodes())
+    dest_pos = np.array([g.vp(v, 'pos') for v in dests]).reshape(-1, 2)
+    nFCQ = int(pType3 * g.number_of_nodes()) if nDests > 0 else 0
     min_g_dist = np.ones(nFCQ) * np.infty
     ind_g_dist = np.ones(nFCQ, int)
 
-- 
2.43.0


From 29233c50a4738785cf680e325843f1115db9fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 21/32] fix: an agent never takes an edge of probability zero

---
 queueing_tool/queues/choice.pyx | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/queueing_tool/queues/choice.pyx b/queueing_tool/queues/choice.pyx
index 8a9b98a..7c83b91 100644
--- a/queueing_tool/queues/choice.pyx
+++ b/queueing_tool/queues/choice.pyx
@@ -7,19 +7,16 @@ import array
 @cython.wraparound(False)
 @cython.nonecheck(False)
 def _choice(double [::1] pr, double u, Py_ssize_t n):
-    cdef double z
-    cdef int k
+    cdef double z = 0
+    cdef int j, k = 0
 
-    if u <= pr[0]:
-        k = 0
-    else:
-        z = pr[0]
-        with nogil:
-            for k in range(1, n):
-                if u <= z + pr[k]:
+    with nogil:
+        for j in range(n):
+            if pr[j] > 0:
+                k = j
+                z += pr[j]
+                if u < z:
                     break
-                else:
-                    z += pr[k]
 
     return k
 
-- 
2.43.0


From cf82815603fa18a2b819f4ddbb69f40700fe2fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 22/32] fix: edges may be given in any collection when
 selecting queues

---
 queueing_tool/network/queue_network.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index ee02520..12a0677 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1612,14 +1612,10 @@ def _get_queues(g, queues, edge, edge_type):
 
     elif queues is None:
         if edge is not None:
-            if isinstance(edge, tuple):
-                if isinstance(edge[0], INT) and isinstance(edge[1], INT):
-                    queues = [g.edge_index[edge]]
-            elif isinstance(edge[0], collections.abc.Iterable):
-                if np.array([len(e) == 2 for e in edge]).all():
-                    queues = [g.edge_index[e] for e in edge]
-            else:
-                queues = [g.edge_index[edge]]
+            edge = list(edge)
+            if len(edge) == 2 and all(isinstance(v, INT) for v in edge):
+                edge = [edge]
+            queues = [g.edge_index[tuple(e)] for e in edge]
         elif edge_type is not None:
             if isinstance(edge_type, collections.abc.Iterable):
                 edge_type = set(edge_type)
-- 
2.43.0


From d0ba3a53df5df135a6ef2828fc98a26a3746ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 23/32] fix: switching data collection never overwrites the row
 of an earlier visit

---
 queueing_tool/queues/queue_servers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 0ba28a7..2bb3c83 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -293,6 +293,7 @@ class QueueServer(object):
         self.num_departures = 0
         self.num_system = 0
         self.data = {}   # times; agent_id : [arrival, service start, departure]
+        self._recorded = set()  # ids of agents whose present visit has a row
         self.queue = collections.deque()
 
         if arrival_f is None:
@@ -404,6 +405,7 @@ class QueueServer(object):
         stored ``data`` and the server is then set to inactive.
         """
         self.data = {}
+        self._recorded = set()
         self._num_arrivals = 0
         self._oArrivals = 0
         self.num_departures = 0
@@ -495,7 +497,7 @@ class QueueServer(object):
 
     def _service_from_queue(self):
         agent = self.queue.popleft()
-        if self.collect_data and agent.agent_id in self.data:
+        if self.collect_data and self._is_recorded(agent):
             self.data[agent.agent_id][-1][1] = self._current_t
 
         agent._time = self.service_f(self._current_t)
@@ -555,6 +557,9 @@ class QueueServer(object):
 
         return dat
 
+    def _is_recorded(self, agent):
+        return agent.agent_id in self._recorded and agent.agent_id in self.data
+
     def _key(self):
         return self._time, self.edge[2]
 
@@ -590,8 +595,9 @@ class QueueServer(object):
             self.num_system -= 1
             self.num_departures += 1
 
-            if self.collect_data and new_depart.agent_id in self.data:
+            if self.collect_data and self._is_recorded(new_depart):
                 self.data[new_depart.agent_id][-1][2] = self._current_t
+            self._recorded.discard(new_depart.agent_id)
 
             num_queued = len(self.queue)
             # This is the number of agents currently being serviced by
@@ -618,6 +624,7 @@ class QueueServer(object):
             self._num_arrivals += 1
 
             if self.collect_data:
+                self._recorded.add(arrival.agent_id)
                 b = 0 if self.num_system <= self.num_servers else 1
                 if arrival.agent_id not in self.data:
                     self.data[arrival.agent_id] = \
-- 
2.43.0


From d966b8ab6c485b6cc5c83d8fad7a6edb95360477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 24/32] fix: a copy of a network keeps edge indices, positions,
 colours and the order of simultaneous events

---
 queueing_tool/network/priority_queue.pyx | 16 ++++++++++++++++
 queueing_tool/network/queue_network.py   |  6 ++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index c1ca4a6..378751a 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -39,6 +39,22 @@ cdef class PriorityQueue:
         for key in keys:
             self.q_times[key[1]] = key[0]
 
+    def copy(self):
+        """Returns an independent copy with its entries in the same order."""
+        cdef PriorityQueue new = PriorityQueue()
+
+        new.array_times = array.array('d', self.array_times)
+        new.array_edges = array.array('i', self.array_edges)
+        new.sorted_times = new.array_times
+        new.sorted_edges = new.array_edges
+        new.q_times = array.array('d', self.q_times)
+        new.actual_size = self.actual_size
+        new.size = self.size
+        new.next_node = self.next_node
+        new.next_time = self.next_time
+
+        return new
+
     @property
     def times(self):
         return self.array_times[:self.size]
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 12a0677..36f51c6 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -639,7 +639,7 @@ class QueueNetwork(object):
     def copy(self):
         """Returns a deep copy of itself."""
         net = QueueNetwork(None)
-        net.g = self.g.copy()
+        net.g = copy.deepcopy(self.g)
         net.max_agents = copy.deepcopy(self.max_agents)
         net.nV = copy.deepcopy(self.nV)
         net.nE = copy.deepcopy(self.nE)
@@ -655,9 +655,7 @@ class QueueNetwork(object):
         net.edge2queue = copy.deepcopy(self.edge2queue)
         net._route_probs = copy.deepcopy(self._route_probs)
 
-        if net._initialized:
-            keys = [q._key() for q in net.edge2queue if q._time < np.infty]
-            net._fancy_heap = PriorityQueue(keys, net.nE)
+        net._fancy_heap = self._fancy_heap.copy()
 
         return net
 
-- 
2.43.0


From e1ee7695aa8cf940c4215b27975d1dae72988d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 25/32] fix: colours and positions belong to their own edges
 and vertices in any insertion order

---
 queueing_tool/graph/graph_preparation.py | 3 ++-
 queueing_tool/graph/graph_wrapper.py     | 4 ++--
 queueing_tool/network/queue_network.py   | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index ecc4c70..82e6b61 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -134,7 +134,8 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    for k, e in enumerate(g.edges()):
+    for e in g.edges():
+        k = g.edge_index[e]
         g.set_ep(e, 'edge_pen_width', 1.25)
         g.set_ep(e, 'edge_marker_size', 8)
         if e[0] == e[1]:
diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 6461222..ac658fb 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -235,7 +235,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
         pos = nx.get_node_attributes(self, name='pos')
         if len(pos) == self.number_of_nodes():
-            self.pos = np.array([pos[v] for v in self.nodes()])
+            self.pos = np.array([pos[v] for v in sorted(self.nodes())])
         else:
             self.pos = None
 
@@ -319,7 +319,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
         if pos is None:
             pos = nx.spring_layout(self)
         nx.set_node_attributes(self, name='pos', values=pos)
-        self.pos = np.array([pos[v] for v in self.nodes()])
+        self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
     def get_edge_type(self, edge_type):
         """Returns all edges with the specified edge type.
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 36f51c6..168b91f 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1009,7 +1009,8 @@ class QueueNetwork(object):
 
     def reset_colors(self):
         """Resets all edge and vertex colors to their default values."""
-        for k, e in enumerate(self.g.edges()):
+        for e in self.g.edges():
+            k = self.g.edge_index[e]
             self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
         for v in self.g.nodes():
             self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
-- 
2.43.0


From 004954b1372144ae551c5b57775dd7d578b69499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 26/32] fix: drawing refreshes vertices with a loop out of the
 network and vertices without queues

---
 queueing_tool/network/queue_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 168b91f..db02953 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1542,6 +1542,8 @@ class QueueNetwork(object):
                 self.g.set_vp(v, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
                     self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                else:
+                    self._update_vertex_color(v)
                 do[v] = False
             else:
                 self.g.set_ep(e, 'edge_color', q._current_color())
@@ -1552,6 +1554,10 @@ class QueueNetwork(object):
                     self._update_vertex_color(q.edge[0])
                     do[q.edge[0]] = False
 
+        for v in range(self.nV):
+            if do[v]:
+                self._update_vertex_color(v)
+
     def _update_vertex_color(self, v):
         ee = (v, v)
         ee_is_edge = self.g.is_edge(ee)
-- 
2.43.0


From b763238ad3d1ab49134806b03b2871d54639229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 27/32] fix: an animation colours the vertex of the previous
 event as its own queue

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index db02953..a97cae0 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1591,7 +1591,7 @@ class QueueNetwork(object):
                 self.g.set_ep(pe, 'edge_color', q._current_color(1))
                 self.g.set_vp(pv, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
-                    self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                    self.g.set_vp(pv, 'vertex_fill_color', q._current_color())
 
             else:
                 self.g.set_ep(pe, 'edge_color', q._current_color())
-- 
2.43.0


From 89591d8c9c6102cd67f235df72fe8d898149e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 28/32] fix: positions given to vertices are used when drawing
 a graph built step by step

---
 queueing_tool/graph/graph_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index ac658fb..052c408 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -463,8 +463,9 @@ class QueueNetworkDiGraph(nx.DiGraph):
         """
         if pos is not None:
             self.set_pos(pos)
-        elif self.pos is None:
-            self.set_pos()
+        elif self.pos is None or len(self.pos) != self.number_of_nodes():
+            pos = nx.get_node_attributes(self, name='pos')
+            self.set_pos(pos if len(pos) == self.number_of_nodes() else None)
 
         edge_pos = [0 for e in self.edges()]
         for e in self.edges():
-- 
2.43.0


From f2c931addac56cdda61b51c29f9b8aae210eafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 29/32] fix: over_max counts deposits only, not departures that
 take a resource

---
 queueing_tool/queues/queue_extentions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index d2d3531..1589698 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -101,8 +101,6 @@ class ResourceQueue(LossQueue):
 
     def set_num_servers(self, n):
         self.num_servers = n
-        if n > self.max_servers:
-            self.over_max += 1
 
         while len(self.queue) > 0 and self.num_system - len(self.queue) < n:
             self._service_from_queue()
@@ -140,6 +138,9 @@ class ResourceQueue(LossQueue):
                     self._num_total -= 1
                     arrival._has_resource = False
                     arrival._had_resource = True
+                    if self.num_servers >= self.max_servers:
+                        self.over_max += 1
+
                     self.set_num_servers(self.num_servers + 1)
 
                     if self.collect_data:
-- 
2.43.0


From 67c18c2f40af473ba52da4cb6545f41ffb65b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 30/32] fix: a departing agent takes its server before the next
 one is served

---
 queueing_tool/queues/queue_servers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 2bb3c83..79cef4e 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -599,6 +599,9 @@ class QueueServer(object):
                 self.data[new_depart.agent_id][-1][2] = self._current_t
             self._recorded.discard(new_depart.agent_id)
 
+            # The agent may take its server along.
+            new_depart.queue_action(self, 2)
+
             num_queued = len(self.queue)
             # This is the number of agents currently being serviced by
             # the QueueServer. This number need not be equal to 
@@ -609,7 +612,6 @@ class QueueServer(object):
             if num_queued > 0 and num_servicing < self.num_servers:
                 self._service_from_queue()
 
-            new_depart.queue_action(self, 2)
             self._update_time()
             return new_depart
 
-- 
2.43.0


From f3eb124f9c070774ddd4d16cae3e7ec5884ffff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 31/32] fix: a delay never moves the placeholder of an idle
 queue

---
 queueing_tool/queues/queue_servers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 79cef4e..dff4a6f 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -1,7 +1,7 @@
 import collections
 import copy
 import numbers
-from heapq import heappush, heappop
+from heapq import heappush, heappop, heapreplace
 
 from numpy.random import uniform, exponential
 from numpy import infty
@@ -487,6 +487,11 @@ class QueueServer(object):
         if len(self._departures) > 1:
             agent = heappop(self._departures)
 
+            if isinstance(agent, InftyAgent):
+                # The agents in service are never to depart, which ties
+                # with the placeholder.
+                agent = heapreplace(self._departures, agent)
+
             if t is None:
                 agent._time = self.service_f(agent._time)
             else:
-- 
2.43.0


From 94cdd070d7745ce65e8f314e1d82708612bcb24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 32/32] fix: a service that never ends is no event of the
 network

---
 queueing_tool/network/queue_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index a97cae0..239fd78 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1355,7 +1355,8 @@ class QueueNetwork(object):
             new_q2k = q2._key()
 
             if new_q2k[0] != q2k[0]:
-                self._fancy_heap.push(*new_q2k)
+                if new_q2k[0] < np.infty:
+                    self._fancy_heap.push(*new_q2k)
 
                 if new_q1k[0] < np.infty and new_q1k != new_q2k:
                     self._fancy_heap.push(*new_q1k)
-- 
2.43.0

