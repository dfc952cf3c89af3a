"""Planted changes: generator of /verif/seeded/<id>/ (see DESIGN.md).

    python3 tools/bugs.py [id ...]      writes the folders from the entries below

Each entry: (id, property, file, [(old, new), ...], needs, breaks, demo body).
No check reads this file or /verif/seeded.
"""
import json, os, shutil, subprocess, sys, tempfile

QS = "queueing_tool/queues/queue_servers.py"
QE = "queueing_tool/queues/queue_extentions.py"
AG = "queueing_tool/queues/agents.py"
CH = "queueing_tool/queues/choice.pyx"
PQ = "queueing_tool/network/priority_queue.pyx"
QN = "queueing_tool/network/queue_network.py"
GW = "queueing_tool/graph/graph_wrapper.py"
GP = "queueing_tool/graph/graph_preparation.py"
GG = "queueing_tool/graph/graph_generation.py"
UF = "queueing_tool/union_find.py"

HEAD = '''import signal
import sys

import numpy as np
import networkx as nx
import queueing_tool as qt

INF = float('inf')
signal.alarm(100)      # a run that never ends is a failure


def at(*times):
    """arrival function: the given times, then never again"""
    it = iter(times)
    return lambda t: next(it, INF)


def lasting(*spans):
    """service function: the given durations, the last one for ever"""
    it = iter(spans)
    last = spans[-1]
    return lambda t: t + next(it, last)


def check(ok, text):
    if not ok:
        print('FAIL:', text)
        sys.exit(1)


'''

B = []


def bug(id, prop, file, edits, needs, breaks, demo):
    B.append((id, prop, file, edits, needs, breaks, demo))


bug("c01-latest-first-from-full-line", "C01", QS,
    [("            agents_to_queue = max(min(n - num_servicing, len(self.queue)), 0)\n", None),
     ("            for _ in range(agents_to_queue):\n                self._service_from_queue()\n",
      "            for _ in range(agents_to_queue):\n                self._service_from_queue()\n                self.queue.reverse()\n")],
    "set_num_servers raised by at least two (or an odd number) while several agents wait",
    "the waiting line is turned around when servers are added, so agents that arrived later are served first",
    '''
order = []


class A(qt.Agent):
    def queue_action(self, queue, *args, **kwargs):
        if args and args[0] == 1:
            order.append(self.agent_id[1])


q = qt.QueueServer(1, arrival_f=at(1, 1.1, 1.2, 1.3, 1.4), service_f=lasting(5, 6, 7, 8, 9), AgentFactory=A)
q.set_active()
for _ in range(5):
    q.next_event()
q.set_num_servers(4)
for _ in range(5):
    q.next_event()
check(order == sorted(order), order)
''')

bug("c02-start-told-only-when-collecting", "C02", QS,
    [("        agent._time = self.service_f(self._current_t)\n        agent.queue_action(self, 1)\n        heappush(self._departures, agent)\n",
      "            agent.queue_action(self, 1)\n        agent._time = self.service_f(self._current_t)\n        heappush(self._departures, agent)\n")],
    "an agent that had to wait, at a queue that does not collect data",
    "the start of the service of an agent taken from the waiting line is not reported to the agent",
    '''
seen = {}


class A(qt.Agent):
    def queue_action(self, queue, *args, **kwargs):
        seen.setdefault(self.agent_id, []).append(args[0])


q = qt.QueueServer(1, arrival_f=at(1, 1.1, 1.2), service_f=lasting(1), AgentFactory=A)
q.set_active()
q.simulate(n=10)
check(all(v == [0, 1, 2] for v in seen.values()) and len(seen) == 3, seen)
''')

bug("c02-loss-told-only-own-agents", "C02", QS,
    [("                arrival.add_loss(self.edge)\n",
      "                if arrival.agent_id[0] == self.edge[2]:\n                    arrival.add_loss(self.edge)\n")],
    "a full loss queue that is reached by an agent created at a different queue",
    "an agent from elsewhere is lost without being told (its blocked counter stays)",
    '''
q = qt.LossQueue(qbuffer=0, num_servers=1, edge=(0, 0, 0, 2), arrival_f=at(1), service_f=lasting(5))
q.set_active()
q.next_event()
a = qt.Agent((7, 3))
a._time = 2
q._add_arrival(a)
q.next_event()
check(q.num_blocked == 1 and a.blocked == 1, (q.num_blocked, a.blocked))
''')

bug("c03-deactive-time-included", "C03", QE,
    [("                if self._next_ct >= self.deactive_t:", "                if self._next_ct > self.deactive_t:")],
    "an InfoQueue whose next arrival falls exactly on the deactivation time",
    "an arrival is admitted at the deactivation time itself",
    '''
q = qt.InfoQueue(num_servers=1, arrival_f=at(1, 2, 3, 4), service_f=lasting(.25), deactive_t=3)
q.set_active()
q.simulate(n=20)
check(q.num_arrivals[0] == 2, q.num_arrivals)
''')

bug("c03-activate-twice", "C03", QS,
    [("        if not self._active:\n            self._active = True\n            self._add_arrival()",
      "        self._active = True\n        self._add_arrival()")],
    "set_active on a queue that is already active and whose next arrival is due at the present instant",
    "an arrival more than the arrival function produced is scheduled: two streams from one source",
    '''
q = qt.QueueServer(5, arrival_f=lambda t: t + (1 if t < 1 else 0), service_f=lasting(1), active_cap=50)
q.set_active()
q.next_event()
before = q.num_arrivals[1]
q.set_active()
check(q.num_arrivals[1] == before, (before, q.num_arrivals))
''')

bug("c04-time-stale-after-servers-added", "C04", QS,
    [("            if agents_to_queue > 0:\n                self._update_time()\n\n", "")],
    "set_num_servers raised while agents wait and the new service ends before everything already scheduled",
    "q.time stays at a later event than the one next_event processes",
    '''
q = qt.QueueServer(1, arrival_f=at(1, 1.5), service_f=lasting(10, .5))
q.set_active()
q.next_event()
q.next_event()
q.set_num_servers(2)
t = q.time
q.next_event()
check(q.current_time == t, (t, q.current_time))
''')

bug("c04-description-on-tie", "C04", QS,
    [("        if self._departures[0]._time < self._arrivals[0]._time:\n            return 2",
      "        if self._departures[0]._time <= self._arrivals[0]._time < infty:\n            return 2"),
     ("        elif self._arrivals[0]._time < infty:\n            return 1\n        else:\n            return 0\n\n    def set_active",
      "        elif self._arrivals[0]._time < infty:\n            return 1\n        else:\n            return 2 if self._departures[0]._time < infty else 0\n\n    def set_active")],
    "an arrival and a departure at exactly the same time",
    "next_event_description announces a departure and next_event processes the arrival",
    '''
q = qt.QueueServer(2, arrival_f=at(1, 2), service_f=lasting(1))
q.set_active()
q.next_event()
d = q.next_event_description()
r = q.next_event()
check((d == 2) == (r is not None), (d, r))
''')

bug("c05-duration-from-next-event", "C05", QS,
    [("            then = self._current_t + t\n", "            then = max(self._current_t, min(self._time, 1e300)) + t if self._current_t == 0 else self._current_t + t\n")],
    "simulate(t=...) as the first thing after activation, with the first arrival late",
    "the duration is counted from the first arrival instead of from the present time",
    '''
q = qt.QueueServer(1, arrival_f=at(3, 4, 5, 6, 7, 8, 9), service_f=lasting(.1))
q.set_active()
q.simulate(t=4)
check(4 <= q.current_time <= 4.2, q.current_time)
''')

bug("c06-buffer-counted-separately", "C06", QS,
    [("            if self.num_system < self.num_servers + self.buffer:",
      "            if self.num_system < self.num_servers or len(self.queue) < self.buffer:")],
    "a loss queue whose number of servers was lowered while they were serving",
    "agents are admitted although as many agents as fit are already in the system",
    '''
q = qt.LossQueue(qbuffer=1, num_servers=3, arrival_f=at(1, 1.1, 1.2, 1.3), service_f=lasting(50))
q.set_active()
for _ in range(3):
    q.next_event()
q.set_num_servers(1)
full = q.at_capacity()
n = q.num_system
q.next_event()
check(full and q.num_system == n and q.num_blocked == 1, (full, q.num_system, q.num_blocked))
''')

bug("c06-infinite-buffer-zero-servers", "C06", QE,
    [("        self.max_servers = 2 * num_servers\n        self.over_max = 0\n",
      "        self.max_servers = 2 * num_servers\n        self.over_max = 0\n        self.buffer = min(self.buffer, self.max_servers)\n"),
     ],
    "a resource queue with a buffer larger than twice its number of servers",
    "agents that fit in the buffer are turned away",
    '''
q = qt.ResourceQueue(num_servers=1, qbuffer=4, arrival_f=at(1, 1.1, 1.2, 1.3, 1.4), service_f=lasting(50))
q.set_active()
for _ in range(5):
    q.next_event()
check(q.num_blocked == 0 and q.num_system == 5, (q.num_blocked, q.num_system))
''')

bug("c07-queued-count-by-servers", "C07", QS,
    [("                b = 0 if self.num_system <= self.num_servers else 1\n",
      "                b = max(self.num_system - self.num_servers, 0) - len(self.queue)\n")],
    "an arrival after the number of servers was lowered below the number in service",
    "the number of queued agents in the row counts agents that are still in service",
    '''
q = qt.QueueServer(3, arrival_f=at(1, 1.1, 1.2, 1.3), service_f=lasting(50), collect_data=True)
q.set_active()
for _ in range(3):
    q.next_event()
q.set_num_servers(1)
q.next_event()
check(q.fetch_data()[3, 3] == q.number_queued() == 1, q.fetch_data())
''')

bug("c09-older-news-accepted", "C09", QE,
    [("            a = self.net_data[:, 0] < agent.net_data[:, 0]", "            a = agent.net_data[:, 0] >= 0")],
    "two agents with different ages of information about a third queue reaching the same queue, the fresher first",
    "a queue replaces newer information by older",
    '''
q = qt.InfoQueue(net_size=3, edge=(0, 1, 0, 1), service_f=lasting(1))
for k, (when, told) in enumerate([(1, 0.9), (2, 0.5)]):
    a = qt.InfoAgent((4, k), 3)
    a.net_data[2, :] = (told, 1, told)
    a._time = when
    q._add_arrival(a)
    q.next_event()
check(q.net_data[2, 0] == 0.9, q.net_data)
''')

bug("c09-shared-table", "C09", QE,
    [("            a = self.net_data[:, 0] < agent.net_data[:, 0]\n            self.net_data[a, :] = agent.net_data[a, :]",
      "            a = self.net_data[:, 0] < agent.net_data[:, 0]\n            if a.all():\n                self.net_data = agent.net_data\n            self.net_data[a, :] = agent.net_data[a, :]")],
    "an agent that knows something newer about every queue than the queue it reaches",
    "queue and agent share one table from then on: the queue knows at once what the agent learns elsewhere",
    '''
q = qt.InfoQueue(net_size=2, edge=(0, 1, 0, 1), service_f=lasting(1))
r = qt.InfoQueue(net_size=2, edge=(1, 0, 1, 1), service_f=lasting(1))
a = qt.InfoAgent((4, 0), 2)
a.net_data[0, :] = (.3, 1, 1)
a.net_data[1, :] = (.5, 1, 1)
a._time = 1
q._add_arrival(a)
q.next_event()
a = q.next_event()
before = q.net_data.copy()
r._add_arrival(a)
r.next_event()
r.next_event()
check((q.net_data == before).all(), q.net_data)
''')

bug("c10-cleared-keeps-news", "C10", QE,
    [("    def clear(self):\n        super(InfoQueue, self).clear()\n        self.networking(len(self.net_data))",
      "    def clear(self):\n        net_data = self.net_data\n        super(InfoQueue, self).clear()\n        self.networking(len(self.net_data))\n        if self.num_system or np.isinf(self.buffer):\n            self.net_data[:, 1:] = net_data[:, 1:]")],
    "an InfoQueue (default, unlimited buffer) cleared after having collected information",
    "the information of the earlier run is still there after clear",
    '''
q = qt.InfoQueue(net_size=2, edge=(0, 1, 0, 1), service_f=lasting(1))
a = qt.InfoAgent((4, 0), 2)
a.net_data[1, :] = (.5, 1, 1)
a._time = 1
q._add_arrival(a)
q.next_event()
q.clear()
check((q.net_data == -1).all(), q.net_data)
''')

bug("c11-tied-queue-forgotten", "C11", QN,
    [("                if new_q1k[0] < np.infty and new_q1k != new_q2k:", "                if new_q1k[0] < np.infty and new_q1k[0] != new_q2k[0]:")],
    "an agent moves to a queue, and afterwards the two queues have their next events at exactly the same time",
    "the queue the agent left is not in the heap any more: its events are never processed",
    '''
g = qt.adjacency2graph({0: [1], 1: [2], 2: []}, edge_type={0: {1: 1}, 1: {2: 2}})
args = {1: {'arrival_f': at(1, 3), 'service_f': lasting(1, 4)}, 2: {'arrival_f': at(), 'service_f': lasting(1)}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args=args, adjust_graph=False)
net.set_pos = None
net.initialize(edge_type=1)
net.simulate(n=60)
check(np.sum(net.num_agents) == 0, net.num_agents)
''')

bug("c12-count-before-the-arrival", "C12", QN,
    [("                q2.next_event()\n                self.num_agents[e2] = q2._num_total\n", "                q2.next_event()\n")],
    "an agent moving to a queue that is active itself or which refuses it",
    "the count of the receiving queue misses what happened while it processed the arrival",
    '''
g = qt.adjacency2graph({0: [1], 1: [0]}, edge_type={0: {1: 1}, 1: {0: 2}})
args = {1: {'arrival_f': at(1), 'service_f': lasting(1)}, 2: {'num_servers': 2, 'service_f': lasting(9)}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.ResourceQueue}, q_args=args, adjust_graph=False)
net.initialize(edge_type=1)
q = net.edge2queue[1]
net.simulate(n=1)
net.edge2queue[0]._departures[0].__class__ = qt.ResourceAgent
net.edge2queue[0]._departures[0]._has_resource = True
net.edge2queue[0]._departures[0]._had_resource = False
net.simulate(n=1)
check(list(net.num_agents) == [q_._num_total for q_ in net.edge2queue], net.num_agents)
''')

bug("c12-returning-agent-stays-counted", "C12", QE,
    [("                    self._current_t = arrival._time\n                    self._num_total -= 1\n", "                    self._current_t = arrival._time\n"),
     ("                        t = arrival._time\n", "                        t = arrival._time\n                        self._num_total -= 1\n")],
    "agents bringing a resource back to a resource queue that does not collect data",
    "an agent who has left the network stays in the network's count",
    '''
g = qt.adjacency2graph({0: [1], 1: [0]}, edge_type={0: {1: 1}, 1: {0: 1}})
args = {1: {'arrival_f': at(1), 'service_f': lasting(1), 'num_servers': 2}}
net = qt.QueueNetwork(g, q_classes={1: qt.ResourceQueue}, q_args=args, adjust_graph=False)
net.initialize(queues=0)
net.simulate(n=10)
check(np.sum(net.num_agents) == 0, net.num_agents)
''')

bug("c13-successors-in-given-order", "C13", QN,
    [("self.out_edges[v] = [g.edge_index[e] for e in sorted(g.out_edges(v))]", "self.out_edges[v] = [g.edge_index[e] for e in g.out_edges(v)]")],
    "an adjacency which lists the successors of a vertex in another order than ascending, and unequal probabilities",
    "agents are routed with the probabilities of a different edge",
    '''
g = qt.QueueNetworkDiGraph({0: [1], 1: [3, 2], 2: [0], 3: [0]})
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, q_args={1: {'arrival_f': at(1, 2, 3), 'service_f': lasting(.1)}})
net.set_transitions({1: {2: 1.0, 3: 0.0}})
net.initialize(edges=(0, 1))
net.start_collecting_data()
net.simulate(n=6)
v = net.g
check(net.edge2queue[v.edge_index[(1, 2)]].num_arrivals[0] + net.edge2queue[v.edge_index[(1, 2)]].num_departures > 0, 'went elsewhere')
check(len(net.edge2queue[v.edge_index[(1, 3)]].data) == 0, 'an agent took an edge of probability zero')
''')

bug("c14-loop-blocks-itself", "C14", QN,
    [("            if q2.at_capacity() and e2 != e1:", "            if q2.at_capacity() and (e2 != e1 or q2.num_system > q2.num_servers):")],
    "an agent who routes from a full loop queue with a waiting line back to the same loop",
    "the queue blocks its own departure: nobody moves any more",
    '''
g = qt.adjacency2graph({0: [0]}, edge_type={0: {0: 1}})
args = {1: {'arrival_f': at(1, 1.1, 1.2), 'service_f': lasting(1), 'num_servers': 1, 'qbuffer': 1}}
net = qt.QueueNetwork(g, q_classes={1: qt.LossQueue}, q_args=args, adjust_graph=False)
net.initialize(queues=0)
net.simulate(n=40)
check(net.edge2queue[0].num_departures > 3, net.edge2queue[0].num_departures)
''')

bug("c14-full-only-when-exactly-full", "C14", QS,
    [("        return self.num_system >= self.num_servers + self.buffer", "        return self.num_system == self.num_servers + self.buffer")],
    "a finite queue that holds more agents than now fit, because servers were removed or resources taken away",
    "agents are sent to a queue with no room: they are refused there and lost",
    '''
g = qt.adjacency2graph({0: [1], 1: [2], 2: []}, edge_type={0: {1: 1}, 1: {2: 2}})
args = {1: {'arrival_f': at(1, 1.1, 3), 'service_f': lasting(.5), 'num_servers': 3}, 2: {'arrival_f': at(), 'service_f': lasting(10), 'num_servers': 2}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.LossQueue}, q_args=args, adjust_graph=False)
net.initialize(edge_type=1)
net.simulate(n=5)
q = net.edge2queue[1]
check(q.num_system == 2, q)
q.set_num_servers(1)
net.simulate(n=1)
check(net.edge2queue[0].num_arrivals[0] == 3, net.edge2queue)
check(sum(x.num_system for x in net.edge2queue) == 3, 'an agent was lost')
''')

bug("c15-limit-forgotten-on-transfer", "C15", QN,
    [("                if q2._active and self.max_agents < np.infty and \\\n                        np.sum(self.num_agents) > self.max_agents - 1:",
      "                if q2._active and self.max_agents < np.infty and \\\n                        np.sum(self.num_agents) > self.max_agents:")],
    "an agent moving to a queue with arrivals of its own that are due, while the network is exactly full",
    "the network holds one agent more than max_agents",
    '''
g = nx.DiGraph()
for e, t in (((0, 1), 1), ((1, 2), 2), ((2, 3), 0)):
    g.add_edge(*e, edge_type=t)
bad = []
for cap in (2, 3, 4, 5):
    for first in (1., 2., 3., 4., 5.):
        for gap in (1., 2., 3., 4., 5.):
            args = {1: {'arrival_f': at(2., 9.), 'service_f': lasting(3.)},
                    2: {'arrival_f': at(*[first + k * gap for k in range(9)]), 'service_f': lasting(30.), 'num_servers': 3}}
            net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args=args, max_agents=cap)
            net.initialize(edge_type=[1, 2])
            for _ in range(12):
                net.simulate(n=1)
                if np.sum(net.num_agents) > cap:
                    bad.append((cap, first, gap, net.num_agents))
check(not bad, bad)
''')

bug("c16-column-by-position", "C16", QN,
    [("                    self._route_probs[k][j] = mat[k, e[1]]", "                    self._route_probs[k][j] = mat[k, e[1]] if mat[k, j] < 1 else float(j == 0)")],
    "a matrix in which the number of the target vertex of a sure transition equals the position of another edge",
    "a row with a sure transition is attributed to the first edge of the vertex",
    '''
g = qt.QueueNetworkDiGraph({0: [1, 2], 1: [0], 2: [0]})
net = qt.QueueNetwork(g)
mat = np.zeros((3, 3))
mat[0, 1], mat[1, 0], mat[2, 0] = 1, 1, 1
net.set_transitions(mat)
check((net.transitions() == mat).all(), net.transitions())
mat[0, 1], mat[0, 2] = 0, 1
net.set_transitions(mat)
check((net.transitions() == mat).all(), net.transitions())
g = nx.DiGraph([(0, 0), (0, 1), (1, 0)])
net = qt.QueueNetwork(g)
mat = np.array([[0., 1.], [1., 0.]])
net.set_transitions(mat)
check((net.transitions() == mat).all(), net.transitions())
''')

bug("c17-copy-shares-routing", "C17", QN,
    [("        net._route_probs = copy.deepcopy(self._route_probs)", "        net._route_probs = copy.copy(self._route_probs)")],
    "set_transitions on a network that was copied, or on its copy",
    "changing the routing of the copy changes the routing of the original",
    '''
g = qt.QueueNetworkDiGraph({0: [1, 2], 1: [0], 2: [0]})
net = qt.QueueNetwork(g)
cp = net.copy()
cp.set_transitions({0: {1: 1.0, 2: 0.0}})
check(net.transitions()[0, 1] == .5, net.transitions())
''')

bug("c17-copy-forgets-blocking", "C17", QN,
    [("        net._blocking = copy.deepcopy(self._blocking)\n", "")],
    "the copy of a network with repetitive service blocking",
    "the copy blocks after service whatever the original does",
    '''
net = qt.QueueNetwork(qt.QueueNetworkDiGraph({0: [1], 1: [0]}), blocking='rs')
check(net.copy().blocking == net.blocking, net.copy().blocking)
''')

bug("c18-no-such-type-selects-all", "C18", QN,
    [("            queues = np.array(tmp, int)", "            queues = np.array(tmp, int) if tmp else None")],
    "selecting by an edge type that no edge has",
    "every queue is selected instead of none",
    '''
net = qt.QueueNetwork(qt.QueueNetworkDiGraph({0: [1], 1: [0]}))
net.start_collecting_data(edge_type=7)
check(not any(q.collect_data for q in net.edge2queue), 'data is collected')
''')

bug("c19-negative-entries", "C19", GW,
    [("            if matrix[k, j] != 0:", "            if matrix[k, j] > 0:")],
    "an adjacency (or type) matrix with a non-zero entry that is not positive",
    "an edge of the matrix is missing in the graph",
    '''
g = qt.adjacency2graph(np.array([[0, -1], [1, 0]]))
check(g.has_edge(0, 1), list(g.edges()))
''')

bug("c20-terminal-not-null", "C20", GP,
    [("adjust=2, is_directed=g.is_directed())", "adjust=2 if len(ans) > 3 else 1, is_directed=g.is_directed())")],
    "a small network with a terminal vertex and adjust_graph on",
    "an edge into a vertex with no exit keeps its queue and the vertex gets a loop instead",
    '''
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
net = qt.QueueNetwork(qt.QueueNetworkDiGraph(g))
check(isinstance(net.edge2queue[0], qt.NullQueue) and net.nE == 1, net.edge2queue)
''')

bug("c21-root-not-heapified", "C21", PQ,
    [("    for i in reversed(range(n//2)):", "    for i in reversed(range((n - 1)//2)):")],
    "a heap built from an even number of keys whose last key is smaller than its parent",
    "the heap is built out of order: the earliest event is not first",
    '''
from queueing_tool.network.priority_queue import PriorityQueue
h = PriorityQueue([(2.0, 0), (1.0, 1)], 2)
check(h.pop() == (1.0, 1), 'later entry first')
''')

bug("c22-size-before-swap", "C22", UF,
    [("            if r2 > r1:", "            self._size[s1] += self._size[s2]\n\n            if r2 > r1:"),
     ("            self._leader[s2] = s1\n            self._size[s1]  += self._size[s2]\n", "            self._leader[s2] = s1\n")],
    "a union whose second cluster is of higher rank than the first",
    "size() answers with the size of the old cluster",
    '''
from queueing_tool.union_find import UnionFind
u = UnionFind(range(3))
u.union(0, 1)
u.union(2, 0)
check([u.size(k) for k in range(3)] == [3, 3, 3], [u.size(k) for k in range(3)])
''')

bug("c22-compression-skips-leader", "C22", UF,
    [("        while parent != self._leader[parent]:\n", "        while parent != self._leader[parent] and len(pSet) < 2:\n")],
    "a path of three or more steps to the leader, which needs unions of clusters of equal rank",
    "find returns an element in the middle of the path: one cluster has two leaders",
    '''
from queueing_tool.union_find import UnionFind
u = UnionFind(range(8))
for a, b in [(0, 1), (2, 3), (4, 5), (6, 7), (0, 2), (4, 6), (0, 4)]:
    u.union(a, b)
check(len(set(u.find(k) for k in range(8))) == 1, [u.find(k) for k in range(8)])
check(u.nClusters == 1, u.nClusters)
''')

bug("c23-all-zero-row", "C23", GG,
    [("            if np.isclose(np.sum(probs), 0):\n                probs[np.random.randint(deg)] = 1\n\n", "")],
    "all random numbers drawn for the edges of a vertex being 0",
    "a row of the transition matrix is not a number",
    '''
real = np.random.rand
np.random.rand = lambda *a: np.zeros(a)
try:
    with np.errstate(all='ignore'):
        mat = qt.generate_transition_matrix(qt.QueueNetworkDiGraph({0: [1, 2], 1: [0], 2: [0]}), seed=1)
finally:
    np.random.rand = real
check(np.allclose(mat.sum(axis=1), 1), mat)
''')

bug("c23-loop-at-probability-zero", "C23", GG,
    [("            if np.random.uniform() < prob_loop:", "            if np.random.uniform() <= prob_loop:")],
    "prob_loop=0 and a random number that is exactly 0",
    "a loop is added although loops have probability zero",
    '''
real = np.random.uniform
np.random.uniform = lambda *a, **k: 0.0 if not a and not k else real(*a, **k)
try:
    g = qt.generate_random_graph(4, prob_loop=0.0, seed=3)
finally:
    np.random.uniform = real
check(not any(e[0] == e[1] for e in g.edges()), list(g.edges()))
''')

bug("c24-slow-rates", "C24", QS,
    [("    scale = 1.0 / rate_max\n", "    scale = 1.0 / max(rate_max, 1.0)\n")],
    "a maximal rate below one",
    "candidates come at rate one, so arrivals are more frequent than the rate function says",
    '''
np.random.seed(1)
t, n = 0, 0
while n < 4000:
    t = qt.poisson_random_measure(t, lambda t: .1, .1)
    n += 1
check(.09 < n / t < .11, n / t)
''')

bug("c25-drawn-with-repetition", "C25", QN,
    [("queues = np.random.choice(qs, size=n, replace=False)", "queues = np.random.choice(qs, size=n, replace=len(qs) > 50)")],
    "initialize(nActive) on a network with more than fifty queues",
    "a queue can be drawn twice, so fewer queues than requested are active",
    '''
g = qt.QueueNetworkDiGraph({k: [(k + 1) % 60] for k in range(60)})
net = qt.QueueNetwork(g, seed=2)
net.initialize(nActive=50)
check(sum(q.active for q in net.edge2queue) == 50, sum(q.active for q in net.edge2queue))
''')

bug("c26-colour-of-leaving-traffic", "C26", QN,
    [("            for ei in self.in_edges[v]:", "            for ei in self.out_edges[v]:")],
    "a vertex with different numbers of agents on the edges that enter and leave it",
    "a vertex is coloured after the queues of the edges that leave it",
    '''
g = qt.QueueNetworkDiGraph({0: [1], 1: [0]})
args = {1: {'arrival_f': at(1, 1.1, 1.2), 'service_f': lasting(50)}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, q_args=args)
net.initialize(edges=(0, 1))
net.simulate(n=3)
import matplotlib
matplotlib.use('Agg')
import os, tempfile
d = tempfile.mkdtemp()
net.draw(fname=os.path.join(d, 'a.png'))
import shutil
shutil.rmtree(d)
check(sum(net.g.vp(1, 'vertex_fill_color')[:3]) < sum(net.g.vp(0, 'vertex_fill_color')[:3]), 'the busy vertex is not darker')
''')

bug("c26-activity-of-leaving-edges", "C26", QN,
    [("            my_iter = g.in_edges(v) if g.is_directed() else g.out_edges(v)", "            my_iter = g.out_edges(v) if g.is_directed() else g.in_edges(v)")],
    "show_active with a vertex that has an active edge going out and none coming in",
    "show_active highlights the wrong vertices",
    '''
import matplotlib
matplotlib.use('Agg')
g = qt.QueueNetworkDiGraph({0: [1], 1: [2], 2: [0]})
net = qt.QueueNetwork(g)
net.initialize(edges=(0, 1))
seen = {}
net.draw = lambda *a, **k: seen.update({v: list(net.g.vp(v, 'vertex_fill_color')) for v in net.g.nodes()})
net.show_active()
want = {v: list(net.colors['vertex_active' if v == 1 else 'vertex_inactive']) for v in (0, 1, 2)}
check(seen == want, seen)
''')

bug("c27-seed-after-layout", "C27", QN,
    [("        if isinstance(seed, numbers.Integral):\n            np.random.seed(seed)\n\n        if g is not None:\n            g, qs = _prepare_graph(g, self.colors, q_classes, q_args, adjust_graph)\n",
      "        if g is not None:\n            g, qs = _prepare_graph(g, self.colors, q_classes, q_args, adjust_graph)\n\n        if isinstance(seed, numbers.Integral):\n            np.random.seed(seed)\n\n        if g is not None:\n")],
    "a graph without positions: they are drawn at random when the network is made",
    "the same seed gives different positions, and the network's pictures are not reproducible",
    '''
np.random.seed(5)
a = qt.QueueNetwork(qt.QueueNetworkDiGraph({0: [1], 1: [2], 2: [0]}), seed=3)
np.random.seed(6)
b = qt.QueueNetwork(qt.QueueNetworkDiGraph({0: [1], 1: [2], 2: [0]}), seed=3)
check(np.array_equal(a.g.pos, b.g.pos), (a.g.pos, b.g.pos))
''')

bug("c27-numpy-seed-ignored", "C27", QS,
    [("        if isinstance(seed, numbers.Integral):\n            np.random.seed(seed)", "        if type(seed) is int:\n            np.random.seed(seed)")],
    "a seed that is a numpy integer",
    "the seed is ignored: runs with the same seed differ",
    '''
def run():
    q = qt.QueueServer(1, seed=np.int64(4))
    q.set_active()
    q.simulate(n=5)
    return q.current_time


check(run() == run(), 'same seed, different runs')
''')

bug("c28-order-after-delay", "C28", QS,
    [("            agent = heappop(self._departures)\n\n            if isinstance(", "            agent = self._departures[0]\n\n            if isinstance("),
     ("            heappush(self._departures, agent)\n            self._update_time()", "            if t is None or len(self._departures) <= 3:\n                heappush(self._departures, heappop(self._departures))\n            self._update_time()")],
    "a delay to an explicit time past the next departure, with at least two other agents in service",
    "the departures are out of order after the delay: a later departure is processed first",
    '''
q = qt.QueueServer(3, arrival_f=at(1, 1.1, 1.2), service_f=lasting(1, 2, 3))
q.set_active()
for _ in range(3):
    q.next_event()
q.delay_service(9.)
out = []
for _ in range(3):
    q.next_event()
    out.append(q.current_time)
check(out == sorted(out), out)
''')

bug("c28-delay-leaves-time", "C28", QS,
    [("            heappush(self._departures, agent)\n            self._update_time()\n\n    def _service",
      "            heappush(self._departures, agent)\n            self._time = min(agent._time, self._arrivals[0]._time)\n\n    def _service")],
    "delaying a service while another departure comes before the delayed one",
    "the queue's next-event time names the delayed departure although another one comes first",
    '''
q = qt.QueueServer(3, arrival_f=at(1, 1.1), service_f=lasting(1, 2))
q.set_active()
for _ in range(2):
    q.next_event()
q.delay_service(9.)
check(q.time == 3.1, q.time)
''')

bug("c29-index-gap", "C29", GW,
    [("            self.edge_index[e] = self._nE\n            self._nE += 1\n", "            self.edge_index[e] = self._nE\n        self._nE += 1\n")],
    "adding an edge that exists and then a new one",
    "the edge indices have a gap: they no longer number the edges",
    '''
g = qt.QueueNetworkDiGraph({0: [1], 1: [0]})
g.add_edge(0, 1)
g.add_edge(1, 1)
check(sorted(g.edge_index.values()) == [0, 1, 2], g.edge_index)
''')

bug("c29-properties-of-first", "C29", GW,
    [("        for v in self.nodes():\n            props.update(self.nodes[v].keys())\n", "        for v in self.nodes():\n            props.update(self.nodes[v].keys())\n            break\n")],
    "a property set at a vertex other than the first",
    "vertex_properties does not name a property that a vertex has",
    '''
g = qt.QueueNetworkDiGraph({0: [1], 1: [0]})
g.set_vp(1, 'mark', 3)
check('mark' in g.vertex_properties(), g.vertex_properties())
''')


for more in ("bugs2.py", "bugs3.py", "bugs4.py", "bugs5.py"):
    more = os.path.join(os.path.dirname(os.path.abspath(__file__)), more)
    exec(compile(open(more).read(), more, "exec"))


def main(argv):
    out = os.environ.get("SEEDED", "/verif/seeded")
    os.makedirs(out, exist_ok=True)
    for id, prop, file, edits, needs, breaks, demo in B:
        if argv and id not in argv:
            continue
        src = open(os.path.join("/repo", file)).read()
        new = src
        files = {file: None}
        bad = None
        for e in edits:
            if len(e) == 3:
                f, old, rep = e
            else:
                f, (old, rep) = file, e
            cur = files.get(f) or open(os.path.join("/repo", f)).read()
            if rep is None:
                continue
            if cur.count(old) != 1:
                bad = "%d occurrences of %r" % (cur.count(old), old[:70])
                break
            files[f] = cur.replace(old, rep)
        if bad:
            print(id, "SKIPPED:", bad)
            continue
        d = os.path.join(out, id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tmp = tempfile.mkdtemp(prefix="bug")
        patch = ""
        for f, text in sorted(files.items()):
            if text is None:
                continue
            a, b = os.path.join(tmp, "a"), os.path.join(tmp, "b")
            for base, t in ((a, open(os.path.join("/repo", f)).read()), (b, text)):
                os.makedirs(os.path.dirname(os.path.join(base, f)), exist_ok=True)
                open(os.path.join(base, f), "w").write(t)
            patch += subprocess.run(["diff", "-u", os.path.join("a", f), os.path.join("b", f)],
                                    cwd=tmp, capture_output=True, text=True).stdout
        lines = [l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in patch.split("\n")]
        open(os.path.join(d, "patch.diff"), "w").write("\n".join(lines))
        shutil.rmtree(tmp)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.strip() + "\nprint('ok')\n")
        with open(os.path.join(d, "demo.sh"), "w") as fh:
            fh.write('#!/bin/bash\n# run with cwd = the repository, after its build\n'
                     'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                     'py=/opt/venv/bin/python; [ -x "$py" ] || py=python3\n'
                     'PYTHONPATH="$PWD" exec "$py" "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # changed lines must be lines of the original repository
        removed = subprocess.run(["git", "apply", "--check", os.path.join(d, "patch.diff")],
                                 cwd="/repo", capture_output=True, text=True)
        if removed.returncode:
            print(id, "does not apply:", removed.stderr[:200])


if __name__ == "__main__":
    main(sys.argv[1:])
