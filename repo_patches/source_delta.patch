From 1d38d0fbad198232afaa4bac11d51dcb23e95899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 01/40] fix: InfoQueue with a deactive_t raised AttributeError
 when its arrivals stopped

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 2a5150f..e49406f 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -313,7 +313,7 @@ class InfoQueue(LossQueue):
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
-                    self.active = False
+                    self._active = False
                     return
 
                 self._num_total += 1
-- 
2.43.0


From 9a4ab772b0f1cf59f7321c4e34d4cca00d556902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 02/40] fix: set_num_servers put too many agents in service

Agents still in service after the number of servers was lowered were not
counted when it was raised again, and going from infinitely many servers
to infinitely many raised TypeError.
---
 queueing_tool/queues/queue_servers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 6a196cc..d5b8382 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -690,7 +690,10 @@ class QueueServer(object):
             the_str = "n must be a positive integer or infinity.\n{0}"
             raise ValueError(the_str.format(str(self)))
         else:
-            agents_to_queue = max(min(n - self.num_servers, len(self.queue)), 0)
+            in_service = max(self.num_servers, len(self._departures) - 1)
+            agents_to_queue = 0
+            if n > in_service:
+                agents_to_queue = min(n - in_service, len(self.queue))
 
             for _ in range(agents_to_queue):
                 self._service_from_queue()
-- 
2.43.0


From 98662ddf85a9dac3ffb3258d3920bc48afd75a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 03/40] fix: the network counted events that did not happen

The heap of next event times can hold the same (time, queue) pair twice, or
only outdated pairs. Popping such a pair counted an event though nothing
occurred, and next_event_description announced a departure when no events
were left.
---
 queueing_tool/network/queue_network.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3547f21..c6b560c 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1004,6 +1004,9 @@ class QueueNetwork(object):
         else:
             s = [q._key() for q in self.edge2queue]
             s.sort()
+            if s[0][0] == np.infty:
+                return 'Nothing', None
+
             e = s[0][1]
             q = self.edge2queue[e]
 
@@ -1304,12 +1307,18 @@ class QueueNetwork(object):
             self._t = np.infty
             return
 
-        q1k = self._fancy_heap.pop()
+        event = 0
+        while event == 0:
+            q1k = self._fancy_heap.pop() if self._fancy_heap.size > 0 else None
+            if q1k is None:
+                self._t = np.infty
+                return
+
+            q1 = self.edge2queue[q1k[1]]
+            event = q1.next_event_description()
+
         q1t = q1k[0]
-        q1 = self.edge2queue[q1k[1]]
         e1 = q1.edge[2]
-
-        event = q1.next_event_description()
         self._t = q1t
         self._qkey = q1k
         self.num_events += 1
-- 
2.43.0


From cfa1657c26ad8fa5dc10dd193373e676a5a2fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 04/40] fix: QueueNetwork.time could be later than the next
 event

The first pair on the heap can be outdated, so the queue it names need not
be the one with the next event.
---
 queueing_tool/network/queue_network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index c6b560c..fe7ce09 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -402,8 +402,7 @@ class QueueNetwork(object):
     @property
     def time(self):
         if self._fancy_heap.size > 0:
-            e = self._fancy_heap.array_edges[0]
-            t = self.edge2queue[e]._time
+            t = min(q._time for q in self.edge2queue)
         else:
             t = np.infty
         return t
-- 
2.43.0


From 4045ea9eb77cb661b200b593d9262b479b89a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 05/40] fix: QueueNetwork.copy lost the graph's edge index,
 positions and colors

networkx's copy rebuilds the graph edge by edge from an empty one, so the
copy's edge_index and drawing attributes were empty.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index fe7ce09..d788365 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -641,7 +641,7 @@ class QueueNetwork(object):
     def copy(self):
         """Returns a deep copy of itself."""
         net = QueueNetwork(None)
-        net.g = self.g.copy()
+        net.g = copy.deepcopy(self.g)
         net.max_agents = copy.deepcopy(self.max_agents)
         net.nV = copy.deepcopy(self.nV)
         net.nE = copy.deepcopy(self.nE)
-- 
2.43.0


From cadb03bf42ddfda22bc5b39b6de7b5affb845f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 06/40] fix: vertices were drawn at each other's positions

The rows of pos followed the graph's iteration order, but they are looked
up by vertex index.
---
 queueing_tool/graph/graph_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 656e13d..7345b9c 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -240,7 +240,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
         pos = nx.get_node_attributes(self, name='pos')
         if len(pos) == self.number_of_nodes():
-            self.pos = np.array([pos[v] for v in self.nodes()])
+            self.pos = np.array([pos[v] for v in sorted(self.nodes())])
         else:
             self.pos = None
 
@@ -313,7 +313,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
         if pos is None:
             pos = nx.spring_layout(self)
         nx.set_node_attributes(self, name='pos', values=pos)
-        self.pos = np.array([pos[v] for v in self.nodes()])
+        self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
     def get_edge_type(self, edge_type):
         """Returns all edges with the specified edge type.
-- 
2.43.0


From b12fb59c20316e8c17a304543fc87d0637d0282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 07/40] fix: re-activating a queue let in more than active_cap
 arrivals

Each set_active call created another arrival, also when the queue had
already accepted all it may (or may accept none).
---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index d5b8382..f15d848 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -658,7 +658,7 @@ class QueueServer(object):
         """Changes the ``active`` attribute to True. Agents may now
         arrive from outside the network.
         """
-        if not self._active:
+        if not self._active and self._oArrivals < self.active_cap:
             self._active = True
             self._add_arrival()
 
-- 
2.43.0


From 1cfdbe6278d4b324996e8d4f77498b7a34427bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 08/40] fix: ResourceAgent interacted with its queue three
 times per visit

It takes a resource when it departs, but queue_action is also called on
arrival and when service starts, so a visit cost two servers.
---
 queueing_tool/queues/queue_extentions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index e49406f..515dcdc 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -43,6 +43,9 @@ class ResourceAgent(Agent):
             The instance of the queue that the ``ResourceAgent`` will
             interact with.
         """
+        if args and args[0] != 2:
+            return
+
         if isinstance(queue, ResourceQueue):
             if self._has_resource:
                 self._has_resource = False
-- 
2.43.0


From bea9b843e46444b6dccf3de72cf9980ec6c0c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 09/40] fix: ResourceQueue mishandled agents that found its
 servers busy

Its own copy of the blocking code never scheduled the next outside arrival,
so one blocked agent ended the arrivals; it ignored qbuffer, dropping agents
a LossQueue would let wait (also ones coming from inside the network); it
counted blocked agents as arrivals and did not tell the agent. Use
LossQueue's, and let a waiting agent start when a resource is deposited.
---
 queueing_tool/queues/queue_extentions.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 515dcdc..56c7ffc 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -150,31 +150,16 @@ class ResourceQueue(LossQueue):
                         else:
                             self.data[arrival.agent_id].append([t, t, t, len(self.queue), self.num_system])
 
+                    if len(self.queue) > 0 and len(self._departures) - 1 < self.num_servers:
+                        self._service_from_queue()
+
                     if self._arrivals[0]._time < self._departures[0]._time:
                         self._time = self._arrivals[0]._time
                     else:
                         self._time = self._departures[0]._time
 
-                elif self.num_system < self.num_servers:
-                    super(ResourceQueue, self).next_event()
-
                 else:
-                    self.num_blocked += 1
-                    self._num_arrivals += 1
-                    self._num_total -= 1
-                    arrival = heappop(self._arrivals)
-                    self._current_t = arrival._time
-
-                    if self.collect_data:
-                        if arrival.agent_id not in self.data:
-                            self.data[arrival.agent_id] = [[arrival._time, 0, 0, len(self.queue), self.num_system]]
-                        else:
-                            self.data[arrival.agent_id].append([arrival._time, 0, 0, len(self.queue), self.num_system])
-
-                    if self._arrivals[0]._time < self._departures[0]._time:
-                        self._time = self._arrivals[0]._time
-                    else:
-                        self._time = self._departures[0]._time
+                    super(ResourceQueue, self).next_event()
         else:
             return super(ResourceQueue, self).next_event()
 
-- 
2.43.0


From 98a6c266484f15175e1df1fa990fb2c5a107ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 10/40] fix: NullQueue.clear kept the collected data

After QueueNetwork.clear the departures of the last run were still there
and got mixed with those of the next one.
---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index f15d848..ffb6602 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -956,4 +956,4 @@ class NullQueue(QueueServer):
         return color
 
     def clear(self):
-        pass
+        self.data = {}
-- 
2.43.0


From a39d2b4334046de63910194b5db820754abd70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 11/40] fix: edges got the default color of another edge's
 queue

The position of an edge in g.edges() is not its edge index.
---
 queueing_tool/graph/graph_preparation.py | 3 ++-
 queueing_tool/network/queue_network.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index e751d00..208734f 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -134,7 +134,8 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    for k, e in enumerate(g.edges()):
+    for e in g.edges():
+        k = g.edge_index[e]
         g.set_ep(e, 'edge_pen_width', 1.25)
         g.set_ep(e, 'edge_marker_size', 8)
         if e[0] == e[1]:
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index d788365..ee30e94 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1015,7 +1015,8 @@ class QueueNetwork(object):
 
     def reset_colors(self):
         """Resets all edge and vertex colors to their default values."""
-        for k, e in enumerate(self.g.edges()):
+        for e in self.g.edges():
+            k = self.g.edge_index[e]
             self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
         for v in self.g.nodes():
             self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
-- 
2.43.0


From dbd60460398520f4e2e63241c3d2e20c19453a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 12/40] fix: set_transitions could reject a valid matrix

The mask of terminal vertices was built in the graph's iteration order.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index ee30e94..efaa0c4 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1121,7 +1121,7 @@ class QueueNetwork(object):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
         elif isinstance(mat, np.ndarray):
-            non_terminal = np.array([self.g.out_degree(v) > 0 for v in self.g.nodes()])
+            non_terminal = np.array([self.g.out_degree(v) > 0 for v in range(self.nV)])
             if mat.shape != (self.nV, self.nV):
                 msg = ("Matrix is the wrong shape, should "
                        "be {0} x {1}.").format(self.nV, self.nV)
-- 
2.43.0


From 7a460f3bf28a1bbef005662be7a9db87c63224e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 13/40] fix: set_types_rank made every vertex special when
 pType2 was zero

With nothing to select, tmp[-0] was the smallest rank.
---
 queueing_tool/graph/graph_generation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 87b6cdc..d403270 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -376,13 +376,13 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
 
     tmp = np.sort(np.array(rank))
     nDests = int(np.ceil(g.number_of_nodes() * pType2))
-    dests = np.where(rank >= tmp[-nDests])[0]
+    dests = np.where(rank >= tmp[-nDests])[0] if nDests > 0 else np.array([], int)
 
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    dest_pos = np.array([g.vp(v, 'pos') for v in dests])
-    nFCQ = int(pType3 * g.number_of_nodes())
+    dest_pos = np.array([g.vp(v, 'pos') for v in dests]).reshape(-1, 2)
+    nFCQ = int(pType3 * g.number_of_nodes()) if nDests > 0 else 0
     min_g_dist = np.ones(nFCQ) * np.infty
     ind_g_dist = np.ones(nFCQ, int)
 
-- 
2.43.0


From 7c3069d7a6c24a766731aa0b8d9049e32003e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 14/40] fix: PriorityQueue read and wrote outside its arrays

Popping an empty queue read index -1 and left a negative size, pushing onto
a queue created empty never made room, and the key was not checked.
---
 queueing_tool/network/priority_queue.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 44c72f6..fed55a9 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -61,6 +61,9 @@ cdef class PriorityQueue:
         cdef double t
         cdef int k
 
+        if self.size == 0:
+            return None
+
         self.heappop()
         with nogil:
             while self.next_time != self.q_times[self.next_node]:
@@ -79,16 +82,19 @@ cdef class PriorityQueue:
     @cython.nonecheck(False)
     def push(self, double t, int k):
 
+        if k < 0 or k >= self.q_times.shape[0]:
+            raise IndexError("k is not one of the queue's keys.")
+
         self.q_times[k] = t
         if self.size < self.actual_size:
             self.sorted_times[self.size] = t
             self.sorted_edges[self.size] = k
 
         else:
-            array.resize_smart(self.array_times, 2 * self.size)
-            array.resize_smart(self.array_edges, 2 * self.size)
+            self.actual_size = 2 * self.size + 1
+            array.resize_smart(self.array_times, self.actual_size)
+            array.resize_smart(self.array_edges, self.actual_size)
 
-            self.actual_size *= 2
             self.sorted_times = self.array_times
             self.sorted_edges = self.array_edges
 
-- 
2.43.0


From 67a201fb0729bc36a153bef470fa5c38cd2ecb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 15/40] fix: an agent inside the network could be dropped by a
 tie

The network only moves an agent to a queue that has room, but an outside
arrival due there at the same instant could take that room first, and the
agent was then lost instead of staying at its queue.
---
 queueing_tool/queues/queue_extentions.py | 4 +++-
 queueing_tool/queues/queue_servers.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 56c7ffc..cf94253 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -294,8 +294,10 @@ class InfoQueue(LossQueue):
 
     def _add_arrival(self, agent=None):
         if agent is not None:
+            # The agent goes before any outside arrival due at the same time.
             self._num_total += 1
-            heappush(self._arrivals, agent)
+            self._arrivals.insert(0, agent)
+            self._arrivals.sort()
         else:
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index ffb6602..06009e6 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -357,8 +357,10 @@ class QueueServer(object):
 
     def _add_arrival(self, agent=None):
         if agent is not None:
+            # The agent goes before any outside arrival due at the same time.
             self._num_total += 1
-            heappush(self._arrivals, agent)
+            self._arrivals.insert(0, agent)
+            self._arrivals.sort()
         else:
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
-- 
2.43.0


From e0100c249f7130d9f2d8be7fb8ae72c6078e150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 16/40] fix: minimal_random_graph with one vertex returned an
 empty graph

---
 queueing_tool/graph/graph_generation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index d403270..3d64a6c 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -229,6 +229,7 @@ def minimal_random_graph(num_vertices, seed=None, **kwargs):
         if unionF.nClusters == 1:
             break
 
+    g.add_nodes_from(range(num_vertices))
     pos = {j: p for j, p in enumerate(points)}
     g = QueueNetworkDiGraph(g.to_directed())
     g.set_pos(pos)
-- 
2.43.0


From e4fe3b92cb3fbf82a271a423e1c1d1852e551577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 17/40] fix: a tuple of edges selected every queue in the
 network

Any iterable of 2-tuples is documented to work, but only a list did.
---
 queueing_tool/network/queue_network.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index efaa0c4..1e3c4aa 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1619,14 +1619,11 @@ def _get_queues(g, queues, edge, edge_type):
 
     elif queues is None:
         if edge is not None:
-            if isinstance(edge, tuple):
-                if isinstance(edge[0], INT) and isinstance(edge[1], INT):
-                    queues = [g.edge_index[edge]]
-            elif isinstance(edge[0], collections.abc.Iterable):
-                if np.array([len(e) == 2 for e in edge]).all():
-                    queues = [g.edge_index[e] for e in edge]
+            edge = list(edge)
+            if len(edge) > 0 and isinstance(edge[0], INT):
+                queues = [g.edge_index[tuple(edge)]]
             else:
-                queues = [g.edge_index[edge]]
+                queues = [g.edge_index[tuple(e)] for e in edge]
         elif edge_type is not None:
             if isinstance(edge_type, collections.abc.Iterable):
                 edge_type = set(edge_type)
-- 
2.43.0


From 5956a5b30c588f0e07e6b981c3776c40ace2509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 18/40] fix: times of an unrecorded visit were written to an
 earlier visit's row

When data collection was off while an agent arrived and on when it was
served or departed, the agent's previous row at that queue was overwritten.
---
 queueing_tool/queues/queue_servers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 06009e6..cc6883e 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -492,7 +492,7 @@ class QueueServer(object):
 
     def _service_from_queue(self):
         agent = self.queue.popleft()
-        if self.collect_data and agent.agent_id in self.data:
+        if self.collect_data and agent._recorded and agent.agent_id in self.data:
             self.data[agent.agent_id][-1][1] = self._current_t
 
         agent._time = self.service_f(self._current_t)
@@ -587,7 +587,7 @@ class QueueServer(object):
             self.num_system -= 1
             self.num_departures += 1
 
-            if self.collect_data and new_depart.agent_id in self.data:
+            if self.collect_data and new_depart._recorded and new_depart.agent_id in self.data:
                 self.data[new_depart.agent_id][-1][2] = self._current_t
 
             num_queued = len(self.queue)
@@ -613,6 +613,7 @@ class QueueServer(object):
 
             self.num_system += 1
             self._num_arrivals += 1
+            arrival._recorded = self.collect_data
 
             if self.collect_data:
                 b = 0 if self.num_system <= self.num_servers else 1
-- 
2.43.0


From 0105837cb2d82a45df6059f558e49090f7e7fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 19/40] fix: animating gave a vertex the fill color of another
 vertex's loop

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 1e3c4aa..de17b7f 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1593,7 +1593,7 @@ class QueueNetwork(object):
                 self.g.set_ep(pe, 'edge_color', q._current_color(1))
                 self.g.set_vp(pv, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
-                    self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                    self.g.set_vp(pv, 'vertex_fill_color', q._current_color())
 
             else:
                 self.g.set_ep(pe, 'edge_color', q._current_color())
-- 
2.43.0


From a969139409dfb15df5042fda5eb339a02db94548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 20/40] fix: drawing did not shade some vertices with a
 terminal loop

A type 0 loop does not set the fill color of its vertex, the number of
inbound agents does, but the vertex was skipped if its loop came first.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index de17b7f..3adaec0 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1550,7 +1550,7 @@ class QueueNetwork(object):
                 self.g.set_vp(v, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
                     self.g.set_vp(v, 'vertex_fill_color', q._current_color())
-                do[v] = False
+                    do[v] = False
             else:
                 self.g.set_ep(e, 'edge_color', q._current_color())
                 if do[v]:
-- 
2.43.0


From 77276d2b94f3e4bc287793750305f4f428d7a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 21/40] fix: InfoQueue ignored the information of an agent
 arriving in a tie

When an arrival and a departure fall on the same instant the arrival is
processed first, but its information was not taken over.
---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index cf94253..bcfd7dc 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -320,7 +320,7 @@ class InfoQueue(LossQueue):
             self._time = self._arrivals[0]._time
 
     def next_event(self):
-        if self._arrivals[0]._time < self._departures[0]._time:
+        if self._arrivals[0]._time <= self._departures[0]._time:
             self.extract_information(self._arrivals[0])
 
         return super(InfoQueue, self).next_event()
-- 
2.43.0


From 027de1230eb52a979257f7299439046137722ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 22/40] fix: an agent could choose an edge of probability zero

---
 queueing_tool/queues/choice.pyx | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/queueing_tool/queues/choice.pyx b/queueing_tool/queues/choice.pyx
index 8a9b98a..9f3e00e 100644
--- a/queueing_tool/queues/choice.pyx
+++ b/queueing_tool/queues/choice.pyx
@@ -7,21 +7,20 @@ import array
 @cython.wraparound(False)
 @cython.nonecheck(False)
 def _choice(double [::1] pr, double u, Py_ssize_t n):
-    cdef double z
-    cdef int k
+    cdef double z = 0
+    cdef int k, last = n - 1
 
-    if u <= pr[0]:
-        k = 0
-    else:
-        z = pr[0]
-        with nogil:
-            for k in range(1, n):
-                if u <= z + pr[k]:
+    # Entries that are zero are never chosen, even if the probabilities
+    # only sum to one up to rounding.
+    with nogil:
+        for k in range(n):
+            if pr[k] > 0:
+                last = k
+                z += pr[k]
+                if u < z:
                     break
-                else:
-                    z += pr[k]
 
-    return k
+    return last
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From c012ecae985beb769ae9c36f43a397cb7988b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 23/40] fix: set_transitions accepted probabilities that are
 not on an edge

---
 queueing_tool/network/queue_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3adaec0..9dbced4 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1116,6 +1116,10 @@ class QueueNetwork(object):
                 elif (np.array(probs) < 0).any():
                     msg = "Some transition probabilities were negative."
                     raise ValueError(msg)
+                elif len(self.out_edges[key]) > 0 and \
+                        any(p > 0 and not self.g.is_edge((key, v)) for v, p in value.items()):
+                    msg = "Some transition probabilities were not on an edge."
+                    raise ValueError(msg)
 
                 for k, e in enumerate(sorted(self.g.out_edges(key))):
                     self._route_probs[key][k] = value.get(e[1], 0)
@@ -1131,6 +1135,8 @@ class QueueNetwork(object):
                 raise ValueError(msg)
             elif (mat < 0).any():
                 raise ValueError("Some transition probabilities were negative.")
+            elif any(non_terminal[u] and not self.g.is_edge((u, v)) for u, v in zip(*mat.nonzero())):
+                raise ValueError("Some transition probabilities were not on an edge.")
 
             for k in range(self.nV):
                 for j, e in enumerate(sorted(self.g.out_edges(k))):
-- 
2.43.0


From d587e33585011a8655d01cac53250a2f9751e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 24/40] fix: taking a resource counted as a deposit beyond the
 maximum

---
 queueing_tool/queues/queue_extentions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index bcfd7dc..9b6cb04 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -107,9 +107,9 @@ class ResourceQueue(LossQueue):
         return my_str.format(*arg)
 
     def set_num_servers(self, n):
-        self.num_servers = n
-        if n > self.max_servers:
+        if n > self.max_servers and n > self.num_servers:
             self.over_max += 1
+        self.num_servers = n
 
     def next_event(self):
         """Simulates the queue forward one event.
-- 
2.43.0


From 6c5606079f61802081f7a05844a145d8d8e5817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 25/40] fix: events due at the same time did not happen in the
 announced order

---
 queueing_tool/network/priority_queue.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index fed55a9..cb444a0 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -145,7 +145,7 @@ cdef inline void _siftdown(double[:] heap, int[:] hmap, int startpos, int pos) n
         parent = heap[parentpos]
         father = hmap[parentpos]
 
-        if newitem < parent:
+        if newitem < parent or (newitem == parent and mapitem < father):
             heap[pos] = parent
             hmap[pos] = father
             pos = parentpos
@@ -173,7 +173,10 @@ cdef inline void _siftup(double[:] heap, int[:] hmap, int pos, int endpos) nogil
         # Set childpos to index of smaller child.
         rightpos = childpos + 1
 
-        if rightpos < endpos and not heap[childpos] < heap[rightpos]:
+        # Entries with the same time are ordered by their edge.
+        if rightpos < endpos and (heap[rightpos] < heap[childpos] or
+                                  heap[rightpos] == heap[childpos] and
+                                  hmap[rightpos] < hmap[childpos]):
             childpos = rightpos
 
         # Move the smaller child up.
-- 
2.43.0


From 0ea90b9e6b06df461fdaf4803e0e13eece5f0a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 26/40] fix: the scheduler accepted keys outside its range when
 it was made

PriorityQueue took negative keys and then read outside its arrays.
---
 queueing_tool/network/priority_queue.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index cb444a0..22b057a 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -23,6 +23,10 @@ cdef class PriorityQueue:
         if keys is None:
             keys = []
 
+        for key in keys:
+            if key[1] < 0 or key[1] >= n:
+                raise IndexError("k is not one of the queue's keys.")
+
         self.array_times = array.array('d', [key[0] for key in keys])
         self.array_edges = array.array('i', [key[1] for key in keys])
 
-- 
2.43.0


From 74e3f59dc961915393a8a11fa46b638b67e8f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 27/40] fix: draw ignored the facecolor, edgecolor and
 orientation of savefig

Their names were misspelled in the list of arguments that are passed on.
---
 queueing_tool/graph/graph_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 7345b9c..e7aa982 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -183,9 +183,9 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
 
 SAVEFIG_KWARGS = set([
     'dpi',
-    'facecolorw',
-    'edgecolorw',
-    'orientationportrait',
+    'facecolor',
+    'edgecolor',
+    'orientation',
     'papertype',
     'format',
     'transparent',
-- 
2.43.0


From f9d085ec03ff0cad916fcbbd8ed88ad7258da6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 28/40] fix: a vertex with only a terminal loop kept the colors
 of show_active

Drawing the load again did not color it.
---
 queueing_tool/network/queue_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 9dbced4..2008642 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1557,6 +1557,9 @@ class QueueNetwork(object):
                 if q.edge[3] != 0:
                     self.g.set_vp(v, 'vertex_fill_color', q._current_color())
                     do[v] = False
+                elif do[v]:
+                    self._update_vertex_color(v)
+                    do[v] = False
             else:
                 self.g.set_ep(e, 'edge_color', q._current_color())
                 if do[v]:
-- 
2.43.0


From 30f7673b657d51a5109bcde3c297a7a2fa88759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 29/40] fix: queues change colors of their own, not those of
 the caller or of the class

---
 queueing_tool/queues/queue_servers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index cc6883e..4446565 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -326,11 +326,11 @@ class QueueServer(object):
             np.random.seed(seed)
 
         if colors is not None:
-            self.colors = colors
+            self.colors = dict(colors)
             for col in set(self._default_colors.keys()) - set(self.colors.keys()):
                 self.colors[col] = self._default_colors[col]
         else:
-            self.colors = self._default_colors
+            self.colors = dict(self._default_colors)
 
     @property
     def active(self):
-- 
2.43.0


From 999f192de5fbc882b3fb517cf47b336fef600c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 30/40] fix: the vertex property cap of one edge was used for
 all edges of its type

---
 queueing_tool/graph/graph_preparation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index 208734f..9dd77b3 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -164,10 +164,11 @@ def _set_queues(g, q_cls, q_arg, has_cap):
         eType = g.ep(e, 'edge_type')
         qedge = (e[0], e[1], g.edge_index[e], eType)
 
-        if has_cap and 'num_servers' not in q_arg[eType]:
+        kwargs = dict(q_arg[eType])
+        if has_cap and 'num_servers' not in kwargs:
             cap = g.vp(e[1], 'cap') if g.vp(e[1], 'cap') is not None else 0
-            q_arg[eType]['num_servers'] = max(cap, 1)
+            kwargs['num_servers'] = max(cap, 1)
 
-        queues[qedge[2]] = q_cls[eType](edge=qedge, **q_arg[eType])
+        queues[qedge[2]] = q_cls[eType](edge=qedge, **kwargs)
 
     return queues
-- 
2.43.0


From af7365ea928977e736d5237416f96a9d5fa9211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 31/40] fix: a refused dict of transition probabilities was
 partly applied

---
 queueing_tool/network/queue_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 2008642..f8beaf8 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1121,6 +1121,7 @@ class QueueNetwork(object):
                     msg = "Some transition probabilities were not on an edge."
                     raise ValueError(msg)
 
+            for key, value in mat.items():
                 for k, e in enumerate(sorted(self.g.out_edges(key))):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
-- 
2.43.0


From 39f88a4c5b55e327c89f588fb117791fa217906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:50 +0000
Subject: [PATCH 32/40] fix: classes for edge types above four need no q_args

Leaving out q_args with a class for such a type raised a KeyError.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index f8beaf8..1337860 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -335,7 +335,7 @@ class QueueNetwork(object):
                 q_classes[k] = self.default_classes[k]
 
         if q_args is None:
-            q_args = {k: {} for k in range(5)}
+            q_args = {k: {} for k in q_classes.keys()}
         else:
             for k in set(q_classes.keys()) - set(q_args.keys()):
                 q_args[k] = {}
-- 
2.43.0


From ff6e0cdaff41123d49f9df9b50f4e842bc1b28e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 33/40] fix: a blocked agent could retry for ever when the
 times are large

The delay added to the time of the departure waited for vanishes next to
times like the seconds since 1970: the agent then retried before that
departure, at the same time, without end.
---
 queueing_tool/network/queue_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 1337860..73a1279 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1339,7 +1339,9 @@ class QueueNetwork(object):
                 q2.num_blocked += 1
                 q1._departures[0].blocked += 1
                 if self._blocking:
-                    t = q2._departures[0]._time + EPS * uniform(0.33, 0.66)
+                    # The delay alone can vanish when the times are large.
+                    t = q2._departures[0]._time
+                    t = max(t + EPS * uniform(0.33, 0.66), np.nextafter(t, np.infty))
                     q1.delay_service(t)
                 else:
                     q1.delay_service()
-- 
2.43.0


From 5ab222215217c6896082b7b866961d92b600a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 34/40] fix: only numpy's own infinity was accepted as a number
 of servers

The number of servers may be infinity, but float('inf') and math.inf were
rejected with a TypeError.
---
 queueing_tool/queues/queue_servers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 4446565..1037f0f 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -281,7 +281,7 @@ class QueueServer(object):
                  deactive_t=infty, colors=None, seed=None,
                  coloring_sensitivity=2, **kwargs):
 
-        if not isinstance(num_servers, numbers.Integral) and num_servers is not infty:
+        if not isinstance(num_servers, numbers.Integral) and num_servers != infty:
             msg = "num_servers must be an integer or infinity."
             raise TypeError(msg)
         elif num_servers <= 0:
@@ -686,7 +686,7 @@ class QueueServer(object):
         ValueError
             If ``n`` is not positive.
         """
-        if not isinstance(n, numbers.Integral) and n is not infty:
+        if not isinstance(n, numbers.Integral) and n != infty:
             the_str = "n must be an integer or infinity.\n{0}"
             raise TypeError(the_str.format(str(self)))
         elif n <= 0:
-- 
2.43.0


From f3a5b95ed51fc40eab0b3d27133d39a5032e2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 35/40] fix: initializing again could exceed the maximum number
 of agents

Only the number of queues given was limited, not counting the agents that are
in the network already.
---
 queueing_tool/network/queue_network.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 73a1279..f7f2cbe 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -972,10 +972,9 @@ class QueueNetwork(object):
         if len(queues) == 0:
             raise QueueingToolError("There were no queues to initialize.")
 
-        if len(queues) > self.max_agents:
-            queues = queues[:self.max_agents]
-
         for ei in queues:
+            if np.sum(self.num_agents) >= self.max_agents:
+                break
             self.edge2queue[ei].set_active()
             self.num_agents[ei] = self.edge2queue[ei]._num_total
 
-- 
2.43.0


From 4df5ad62646517cad79349d590f34a8325fd28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 36/40] fix: queues initialized midway had arrivals in the past

Their first arrival was scheduled from the time of their own last event, zero
if there was none, so that the clock of the network ran backwards.
---
 queueing_tool/network/queue_network.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index f7f2cbe..2b40f0a 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -972,11 +972,17 @@ class QueueNetwork(object):
         if len(queues) == 0:
             raise QueueingToolError("There were no queues to initialize.")
 
+        # A queue that was left out so far starts now, not at its own last event.
+        now = self._t if self._t < np.infty else max(q._current_t for q in self.edge2queue)
+
         for ei in queues:
             if np.sum(self.num_agents) >= self.max_agents:
                 break
-            self.edge2queue[ei].set_active()
-            self.num_agents[ei] = self.edge2queue[ei]._num_total
+            q = self.edge2queue[ei]
+            if not q._active:
+                q._current_t = max(q._current_t, now)
+            q.set_active()
+            self.num_agents[ei] = q._num_total
 
         keys = [q._key() for q in self.edge2queue if q._time < np.infty]
         self._fancy_heap = PriorityQueue(keys, self.nE)
-- 
2.43.0


From 396b3bac1de408afef22f6022114e203d3285548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 37/40] fix: the clock stayed infinite when a network that had
 run out was initialized again

---
 queueing_tool/network/queue_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 2b40f0a..5360e2a 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -988,6 +988,9 @@ class QueueNetwork(object):
         self._fancy_heap = PriorityQueue(keys, self.nE)
         self._initialized = True
 
+        if len(keys) > 0:
+            self._t = now
+
     def next_event_description(self):
         """Returns whether the next event is an arrival or a departure
         and the queue the event is accuring at.
-- 
2.43.0


From 83cfa8862e0572eb15984237dc66cac40f945c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 38/40] fix: a queue was not active again when its stopping
 time was moved

---
 queueing_tool/queues/queue_extentions.py |  8 +++++---
 queueing_tool/queues/queue_servers.py    | 10 +++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 9b6cb04..3d1fe2a 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -299,10 +299,12 @@ class InfoQueue(LossQueue):
             self._arrivals.insert(0, agent)
             self._arrivals.sort()
         else:
-            if self._current_t >= self._next_ct:
-                self._next_ct = self.arrival_f(self._current_t)
+            if self._current_t >= self._next_ct or self._too_late:
+                if self._current_t >= self._next_ct:
+                    self._next_ct = self.arrival_f(self._current_t)
 
-                if self._next_ct >= self.deactive_t:
+                self._too_late = bool(self._next_ct >= self.deactive_t)
+                if self._too_late:
                     self._active = False
                     return
 
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 1037f0f..b677f2d 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -320,6 +320,7 @@ class QueueServer(object):
         self._current_t = 0       # The time of the last event.
         self._time = infty   # The time of the next event.
         self._next_ct = 0       # The next time an arrival from outside the network can arrive.
+        self._too_late = False  # Whether that was not before deactive_t.
         self.coloring_sensitivity = coloring_sensitivity
 
         if isinstance(seed, numbers.Integral):
@@ -362,10 +363,12 @@ class QueueServer(object):
             self._arrivals.insert(0, agent)
             self._arrivals.sort()
         else:
-            if self._current_t >= self._next_ct:
-                self._next_ct = self.arrival_f(self._current_t)
+            if self._current_t >= self._next_ct or self._too_late:
+                if self._current_t >= self._next_ct:
+                    self._next_ct = self.arrival_f(self._current_t)
 
-                if self._next_ct >= self.deactive_t:
+                self._too_late = bool(self._next_ct >= self.deactive_t)
+                if self._too_late:
                     self._active = False
                     return
 
@@ -409,6 +412,7 @@ class QueueServer(object):
         self._current_t = 0
         self._time = infty
         self._next_ct = 0
+        self._too_late = False
         self._active = False
         self.queue.clear()
         inftyAgent = InftyAgent()
-- 
2.43.0


From c72ae25d1fe322f4eeb71c2a50a9bf5a5f9e6068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:17 +0000
Subject: [PATCH 39/40] fix: a network of a graph without edge types could not
 be made without adjusting it

---
 queueing_tool/graph/graph_preparation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index 9dd77b3..c330407 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -119,6 +119,10 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
         if len(pos) > 0:
             g.set_pos(pos)
 
+    for e in g.edges():
+        if g.ep(e, 'edge_type') is None:
+            g.set_ep(e, 'edge_type', 1)
+
     g.new_vertex_property('vertex_color')
     g.new_vertex_property('vertex_fill_color')
     g.new_vertex_property('vertex_pen_width')
-- 
2.43.0


From 570c04e79c5e839c6821967ff5c67859a08f79d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:36 +0000
Subject: [PATCH 40/40] fix: a network that was over after a blocked departure
 could start again before it

Queues do not move their clocks when a departure is blocked, so the last
event of a network has to be remembered to start other queues after it.
---
 queueing_tool/network/queue_network.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 5360e2a..5409053 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -311,6 +311,7 @@ class QueueNetwork(object):
             raise TypeError("blocking must be a string")
 
         self._t = 0
+        self._last_t = 0
         self.num_events = 0
         self.max_agents = max_agents
 
@@ -599,6 +600,7 @@ class QueueNetwork(object):
         can run.
         """
         self._t = 0
+        self._last_t = 0
         self.num_events = 0
         self.num_agents = np.zeros(self.nE, int)
         self._fancy_heap = PriorityQueue()
@@ -648,6 +650,7 @@ class QueueNetwork(object):
         net.num_agents = copy.deepcopy(self.num_agents)
         net.num_events = copy.deepcopy(self.num_events)
         net._t = copy.deepcopy(self._t)
+        net._last_t = copy.deepcopy(self._last_t)
         net._initialized = copy.deepcopy(self._initialized)
         net._prev_edge = copy.deepcopy(self._prev_edge)
         net._blocking = copy.deepcopy(self._blocking)
@@ -973,7 +976,9 @@ class QueueNetwork(object):
             raise QueueingToolError("There were no queues to initialize.")
 
         # A queue that was left out so far starts now, not at its own last event.
-        now = self._t if self._t < np.infty else max(q._current_t for q in self.edge2queue)
+        now = self._t
+        if now == np.infty:
+            now = max(self._last_t, max(q._current_t for q in self.edge2queue))
 
         for ei in queues:
             if np.sum(self.num_agents) >= self.max_agents:
@@ -1335,6 +1340,7 @@ class QueueNetwork(object):
         q1t = q1k[0]
         e1 = q1.edge[2]
         self._t = q1t
+        self._last_t = q1t
         self._qkey = q1k
         self.num_events += 1
 
-- 
2.43.0

