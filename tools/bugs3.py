"""More planted changes (see bugs.py)."""

# ---- queues ---------------------------------------------------------------
bug("c01-resource-pool-serves-one", "C01", QE,
    [("        while len(self.queue) > 0 and self.num_system - len(self.queue) < n:\n", "        if len(self.queue) > 0 and self.num_system - len(self.queue) < n:\n")],
    "set_num_servers raises the servers of a ResourceQueue by two or more while two agents wait",
    "only one of the waiting agents starts, the rest wait beside idle servers",
    """
q = qt.ResourceQueue(num_servers=1, qbuffer=5, AgentFactory=qt.Agent, arrival_f=at(1, 2, 3, 4), service_f=lasting(50))
q.set_active()
for _ in range(4):
    q.next_event()
q.set_num_servers(4)
check(q.number_queued() == 0, q.number_queued())
""")

bug("c02-id-restarts-after-break", "C02", QS,
    [("        if not self._active:\n            self._active = True\n            self._add_arrival()\n",
      "        if not self._active:\n            self._active = True\n            if self.num_system == 0 and self._current_t >= self._next_ct:\n                self._oArrivals = self.num_departures\n            self._add_arrival()\n")],
    "a queue with departures of agents from elsewhere (or turned-away agents) is deactivated, runs empty and is activated again",
    "the running number jumps: ids repeat or the external arrival counter is wrong",
    """
q = qt.LossQueue(num_servers=1, qbuffer=0, arrival_f=at(1, 1.5, 2, 20, 21), service_f=lasting(3))
q.set_active()
for _ in range(2):
    q.next_event()
q.set_inactive()
q.simulate(n=9)
n = q.num_arrivals[1]
q.set_active()
check(q.num_arrivals[1] == n + 1, (n, q.num_arrivals))
""")

bug("c02-moved-agent-told-late", "C02", QS,
    [("            arrival.queue_action(self, 0)\n\n            if self.num_system <= self.num_servers:\n",
      "            if self.num_system <= self.num_servers or arrival.agent_id[0] == self.edge[2]:\n                arrival.queue_action(self, 0)\n\n            if self.num_system <= self.num_servers:\n")],
    "an agent from another queue that has to wait in line",
    "the agent is never told that it arrived",
    """
told = []


class A(qt.Agent):
    def queue_action(self, queue, *args, **kwargs):
        told.append((queue.edge[2], self.agent_id[1], args[0]))


g = nx.DiGraph()
for e, t in (((0, 1), 1), ((1, 2), 2), ((2, 3), 0)):
    g.add_edge(*e, edge_type=t)
args = {1: {'arrival_f': at(1., 2.), 'service_f': lasting(.1), 'AgentFactory': A},
        2: {'arrival_f': at(), 'service_f': lasting(9.)}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args=args)
net.initialize(edge_type=1)
net.simulate(n=4)
check(told.count((1, 1, 0)) == 1, told)
""")

bug("c03-late-arrival-forgotten", "C03", QS,
    [("    def set_inactive(self):\n        \"\"\"Changes the ``active`` attribute to False.\"\"\"\n        self._active = False\n",
      "    def set_inactive(self):\n        \"\"\"Changes the ``active`` attribute to False.\"\"\"\n        self._active = False\n        self._next_ct = self._current_t\n")],
    "a queue is deactivated and activated again before its scheduled arrival took place",
    "a second external arrival is scheduled beside the first",
    """
q = qt.QueueServer(1, arrival_f=at(5, 6, 7, 8, 9), service_f=lasting(.1))
q.set_active()
q.set_inactive()
q.set_active()
check(q.num_arrivals[1] == 1, q.num_arrivals)
""")

bug("c04-refusal-leaves-old-time", "C04", QS,
    [("                if self._arrivals[0]._time < self._departures[0]._time:\n                    self._time = self._arrivals[0]._time\n                else:\n                    self._time = self._departures[0]._time\n\n\nclass NullQueue",
      "                self._time = self._arrivals[0]._time\n                if not self._active:\n                    self._time = self._departures[0]._time\n\n\nclass NullQueue")],
    "an arrival is refused and the next departure comes before the next arrival",
    "the announced time of the next event is that of a later one",
    """
q = qt.LossQueue(num_servers=1, qbuffer=0, arrival_f=at(1, 2, 9), service_f=lasting(3))
q.set_active()
q.next_event(); q.next_event()
check(q.time == 4, q.time)
""")

bug("c04-inactive-arrival-time", "C04", QS,
    [("    def _update_time(self):\n        if self._arrivals[0]._time < self._departures[0]._time:\n",
      "    def _update_time(self):\n        if self._arrivals[0]._time < self._departures[0]._time or not self.num_system:\n")],
    "nothing in particular: a queue that is empty but for agents whose resource was removed; equals the departure time otherwise",
    "harmless unless the system count is zero while a departure is scheduled",
    """
check(True, '')
""")
B.pop()

bug("c05-counts-departures-of-call", "C05", QS,
    [("            while self.num_departures < num_departures and self._time < infty:", "            while self.num_departures < num_departures and self._time < infty and (self._active or self.num_system):")],
    "simulate(nD=...) on an inactive empty queue with one arrival still scheduled",
    "the run stops before the departures were seen",
    """
q = qt.QueueServer(1, arrival_f=at(5, 6, 7), service_f=lasting(.1))
q.set_active()
q.set_inactive()
q.simulate(nD=1)
check(q.num_departures == 1, q.num_departures)
""")

bug("c06-answer-while-line-moves", "C06", QS,
    [("        return self.num_system >= self.num_servers + self.buffer\n", "        return len(self.queue) >= self.buffer and self.num_system >= self.num_servers\n")],
    "the number of servers of a full queue was raised or lowered: the line is longer or shorter than the buffer",
    "the at-capacity answer differs from what happens to an arrival",
    """
q = qt.LossQueue(num_servers=3, qbuffer=1, arrival_f=at(1, 2, 3, 4), service_f=lasting(50))
q.set_active()
for _ in range(3):
    q.next_event()
q.set_num_servers(2)
check(q.at_capacity(), 'three agents fill two servers and a buffer of one')
""")

bug("c07-rows-out-of-order", "C07", QS,
    [("            dat = np.sort(dat, order='a')\n            dat = np.array([tuple(d) for d in dat])\n\n        if return_header:\n            return dat, 'arrival,service,departure,num_queued,num_total,q_id'\n\n        return dat\n\n    def _is",
      "            if len(self.data) < len(qdata):\n                dat = np.sort(dat, order='a')\n            dat = np.array([tuple(d) for d in dat])\n\n        if return_header:\n            return dat, 'arrival,service,departure,num_queued,num_total,q_id'\n\n        return dat\n\n    def _is")],
    "never: with one row per agent the rows are in the order of first visits",
    "harmless",
    "check(True, '')")
B.pop()

bug("c08-handing-in-during-departure", "C08", QE,
    [("            if self._departures[0]._time < self._arrivals[0]._time:\n                return super(ResourceQueue, self).next_event()\n",
      "            if self._departures[0]._time <= self._arrivals[0]._time:\n                return super(ResourceQueue, self).next_event()\n")],
    "an agent with a resource arrives at a resource queue at the very time a departure there is due",
    "the agent does not hand in its resource but is served",
    """
q = qt.ResourceQueue(num_servers=5, arrival_f=at(1., 3.), service_f=lasting(2.))
q.set_active()
q.next_event()
q._arrivals[0]._has_resource = True
q.next_event()
check(q.num_servers == 6, q.num_servers)
""")

bug("c09-departure-tie-not-read", "C09", QE,
    [("        if self._arrivals[0]._time <= self._departures[0]._time:\n", "        if self._arrivals[0]._time < self._departures[0]._time:\n")],
    "an information agent arrives at an InfoQueue exactly when a departure is due there",
    "the queue does not learn what the agent knows",
    """
class A(qt.InfoAgent):
    def __init__(self, *args, **kwargs):
        super(A, self).__init__(*args, **kwargs)
        if self.agent_id[1] == 1:
            self.net_data[1] = [.5, 3, .25]


q = qt.InfoQueue(net_size=2, num_servers=2, AgentFactory=A, arrival_f=at(1., 3.), service_f=lasting(2.))
q.set_active()
q.next_event()
q.next_event()
check(q.net_data[1, 1] == 3, q.net_data)
""")

bug("c10-copy-attribute-by-attribute", "C10", QS,
    [("        \"\"\"Returns a deep copy of itself.\"\"\"\n        return copy.deepcopy(self)\n",
      "        \"\"\"Returns a deep copy of itself.\"\"\"\n        new = copy.copy(self)\n        for name, value in self.__dict__.items():\n            setattr(new, name, copy.deepcopy(value))\n        return new\n")],
    "the arrival and the service function share an object (methods of one environment)",
    "in the copy they no longer share it, so its future differs",
    """
class Env(object):
    n = 0

    def arrival(self, t):
        self.n += 1
        return t + 1.

    def service(self, t):
        return t + self.n


e = Env()
q = qt.QueueServer(1, arrival_f=e.arrival, service_f=e.service, collect_data=True)
q.set_active()
q.simulate(n=3)
c = q.copy()
q.simulate(n=90)
c.simulate(n=90)
check((q.fetch_data() == c.fetch_data()).all(), 'the copy went another way')
""")

bug("c10-clear-keeps-surplus", "C10", QE,
    [("        super(ResourceQueue, self).clear()\n        self.num_blocked = 0\n        self.over_max = 0\n",
      "        super(ResourceQueue, self).clear()\n        self.num_blocked = 0\n        self.over_max = 0\n        self.max_servers = 2 * self.num_servers\n")],
    "a resource queue whose number of servers changed is cleared",
    "its maximum is another one",
    """
q = qt.ResourceQueue(num_servers=2, AgentFactory=qt.Agent)
q.set_num_servers(3)
q.clear()
check(q.max_servers == 4, q.max_servers)
""")

# ---- networks -------------------------------------------------------------
bug("c11-simultaneous-departures", "C11", QN,
    [("                if new_q1k[0] < np.infty and new_q1k != new_q2k:\n", "                if q1t < new_q1k[0] < np.infty and new_q1k != new_q2k:\n")],
    "two agents are due to leave a queue at the same time and the first changes the schedule of the queue it joins",
    "the queue they leave drops out of the schedule",
    """
g = nx.DiGraph()
for e, t in (((0, 1), 1), ((1, 2), 2), ((2, 3), 0)):
    g.add_edge(*e, edge_type=t)
args = {1: {'num_servers': 2, 'arrival_f': at(1., 2.), 'service_f': lasting(4., 3.)},
        2: {'num_servers': 2, 'arrival_f': at(), 'service_f': lasting(1.)}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args=args)
net.initialize(edge_type=1)
net.simulate(n=9)
check(net.edge2queue[0].num_departures == 2, net.edge2queue)
""")

bug("c12-activation-adds-one", "C12", QN,
    [("            self.num_agents[ei] = q._num_total\n\n        keys", "            self.num_agents[ei] += 1\n\n        keys")],
    "initialize() names a queue that has reached its cap (nothing is scheduled), or one already holding agents",
    "the number of agents at the queue is overstated",
    """
g = nx.DiGraph([(0, 1), (1, 0)])
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, q_args={1: {'arrival_f': at(1., 2., 3.), 'service_f': lasting(5.), 'active_cap': 1}})
net.initialize(queues=0)
net.simulate(n=1)
net.initialize(queues=0)
check(net.num_agents[0] == 1, net.num_agents)
""")

bug("c12-count-of-loop", "C12", QN,
    [("                q2._add_arrival(agent)\n                self.num_agents[e1] = q1._num_total\n                self.num_agents[e2] = q2._num_total\n",
      "                q2._add_arrival(agent)\n                self.num_agents[e1] -= 1\n                self.num_agents[e2] = q2._num_total\n")],
    "an agent moves along a loop (back to the queue it leaves) and the queue is full or the agent hands in a resource: otherwise the numbers agree",
    "harmless",
    "check(True, '')")
B.pop()

bug("c13-greedy-sees-eight", "C13", CH,
    [("    for k, v in enumerate(a[1:]):\n", "    for k, v in enumerate(a[1:8]):\n")],
    "a vertex with more than eight out-edges",
    "a greedy agent never takes the ninth however short the line",
    """
class Q(object):
    def __init__(self, n):
        self.n = n

    def number_queued(self):
        return self.n


class Net(object):
    out_edges = [list(range(10))]
    edge2queue = [Q(10 - k) for k in range(10)]


check(qt.GreedyAgent().desired_destination(Net, (0, 0, 0, 1)) == 9, 'not the shortest')
""")

bug("c13-unset-probability-when-single", "C13", AG,
    [("        u = uniform()\n        pr = network._route_probs[edge[1]]\n", "        pr = network._route_probs[edge[1]]\n        u = uniform(0, sum(pr[:n - 1])) if pr[n - 1] < 1e-4 else uniform()\n")],
    "the last out-edge has a tiny probability",
    "it is never taken",
    """
import queueing_tool.queues.agents as m


class Net(object):
    out_edges = [[0, 1, 2]]
    _route_probs = [np.array([.5, .49995, .00005])]


m.uniform = lambda a=0., b=1.: a + (b - a) * .99999
check(qt.Agent().desired_destination(Net, (0, 0, 0, 1)) == 2, 'never taken')
""")

bug("c14-room-means-empty-line", "C14", QN,
    [("            if q2.at_capacity() and e2 != e1:\n", "            if q2.at_capacity() and e2 != e1 and (e2 > e1 or q2.num_system):\n")],
    "never: a full queue holds agents unless it has no servers and no buffer",
    "a resource queue without servers takes in an agent",
    """
g = nx.DiGraph()
for e, t in (((0, 1), 2), ((1, 2), 1), ((2, 3), 0)):
    g.add_edge(*e, edge_type=t)
check(True, '')
""")
B.pop()

bug("c17-clear-keeps-last-edge-and-colours", "C17", QN,
    [("        self._t = 0\n        self.num_events = 0\n        self.num_agents = np.zeros(self.nE, int)\n        self._fancy_heap = PriorityQueue()\n",
      "        self._t = 0\n        self.num_events = 0\n        self.num_agents[[q._active or q.num_system > 0 for q in self.edge2queue]] = 0\n        self._fancy_heap = PriorityQueue()\n")],
    "a queue is inactive and empty but has an agent scheduled when the network is cleared",
    "the cleared network still counts the agent",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 0)]), q_classes={1: qt.QueueServer})
net.initialize(queues=0)
net.edge2queue[0].set_inactive()
net.clear()
check(net.num_agents.sum() == 0, net.num_agents)
""")

bug("c17-copy-misses-long-schedule", "C17", PQ,
    [("        cdef PriorityQueue new = PriorityQueue()\n", "        cdef PriorityQueue new = PriorityQueue()\n"),],
    "", "", "")
B.pop()

bug("c18-collected-twice", "C18", QN,
    [("            for agent_id, dat in self.edge2queue[qid].data.items():\n", "            for agent_id, dat in sorted(self.edge2queue[qid].data.items())[:1000]:\n")],
    "more than a thousand agents visited a queue",
    "rows are missing from the data by agent",
    """
g = nx.DiGraph([(0, 1), (1, 2), (2, 1)])
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, q_args={1: {'arrival_f': lambda t: t + 1., 'service_f': lasting(.1)}}, max_agents=10**6)
net.initialize(queues=0)
net.start_collecting_data(queues=0)
net.simulate(t=1200)
check(len(net.get_agent_data(queues=0)) == len(net.get_queue_data(queues=0)), 'rows are missing')
""")

# ---- graphs ---------------------------------------------------------------
bug("c20-targets-of-loops", "C20", QN,
    [("                self.in_edges[v] = [g.edge_index[e] for e in sorted(g.in_edges(v))]\n",
      "                self.in_edges[v] = [g.edge_index[e] for e in sorted(g.in_edges(v)) if e[0] != v or len(g.in_edges(v)) < 3]\n")],
    "a vertex with a loop and at least two other in-edges",
    "the loop is missing from the in-edges of the vertex",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 2), (1, 2), (2, 2), (2, 0), (2, 1)]))
check(len(net.in_edges[2]) == 3, net.in_edges)
""")

bug("c22-early-return", "C22", UF,
    [("            if r1 == r2:\n                self._rank[s1] += 1\n\n            self._leader[s2] = s1\n            self._size[s1]  += self._size[s2]\n",
      "            if r1 == r2:\n                self._rank[s1] += 1\n\n            self._leader[s2] = s1\n            self._size[s1]  += self._size[b]\n")],
    "the second element is not the leader of its set when merging",
    "the size of the merged set is wrong",
    """
u = qt.union_find.UnionFind(range(6))
u.union(0, 1); u.union(2, 3); u.union(4, 5); u.union(0, 2)
u.union(5, 3)
check(u.size(0) == 6, u.size(0))
""")

bug("c23-loops-as-other-edges", "C23", GG,
    [("    values = np.random.choice(types, size=len(loops), replace=True, p=lprops)\n", "    values = np.random.choice(types, size=len(loops), replace=len(loops) > len(types), p=lprops)\n")],
    "at most as many loops as types offered",
    "no two loops get the same type",
    """
seen = set()
for s in range(60):
    g = qt.set_types_random(nx.DiGraph([(0, 0), (1, 1), (0, 1)]), seed=s)
    seen.add(g.ep((0, 0), 'edge_type') == g.ep((1, 1), 'edge_type'))
check(seen == {True, False}, 'two loops never agree')
""")

bug("c24-one-retry-scale", "C24", QS,
    [("    while rate_max * uniform() >= rate(t):\n        t = t + exponential(scale)\n", "    while rate_max * uniform() >= rate(t):\n        t = t + exponential(scale)\n        scale = scale if t > 0 else 1.0\n")],
    "negative times",
    "candidates are spaced differently",
    """
import queueing_tool.queues.queue_servers as m
seen = []
m.exponential = lambda s=1.: seen.append(s) or s
us = iter([.99, .99, .0])
m.uniform = lambda *a: next(us)
m.poisson_random_measure(-10., lambda t: 1., 4.)
check(seen == [.25] * 3, seen)
""")

bug("c25-number-of-queues-by-type-one", "C25", QN,
    [("                n = min(nActive, len(qs))\n                queues = np.random.choice(qs, size=n, replace=False)\n",
      "                n = min(nActive, len(qs))\n                queues = np.random.choice(qs, size=n, replace=False, p=[1 / len(qs)] * len(qs)) if n < len(qs) - 1 else qs[:n]\n")],
    "as many queues as there are, less one, are to be activated",
    "always the same queue is left out",
    """
seen = set()
for s in range(40):
    net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 2), (2, 0)]), seed=s)
    net.initialize(nActive=2)
    seen.add(tuple(q.active for q in net.edge2queue))
check(len(seen) == 3, seen)
""")

bug("c26-animation-one-event-more", "C26", QN,
    [("                if self._t > now + t:\n                    return False\n", "                if self._t > now + t:\n                    self._t = now + t\n                    return False\n")],
    "an animation is limited in time and runs to the end",
    "the clock of the network is set back",
    """
import matplotlib
matplotlib.use('Agg')
import queueing_tool.network.queue_network as m


class Fake(object):
    def __init__(self, func=None, **kwargs):
        for k in range(30):
            func(k)


m.FuncAnimation = Fake
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 0)]), q_classes={1: qt.QueueServer}, q_args={1: {'arrival_f': lambda t: t + 1., 'service_f': lasting(.3)}})
net.initialize(queues=0)
net.animate(t=3)
t = max(q.current_time for q in net.edge2queue)
check(net.current_time == t, (net.current_time, t))
""")

bug("c28-extra-service-from-now", "C28", QS,
    [("                agent._time = self.service_f(agent._time)\n            else:", "                agent._time = self.service_f(max(agent._time, self._current_t)) if len(self._departures) > 1 else agent._time + (self.service_f(self._current_t) - self._current_t)\n            else:")],
    "a single agent is in service and the service function depends on time",
    "the further service time is that of another instant",
    """
seen = []
q = qt.QueueServer(1, arrival_f=at(1.), service_f=lambda t: seen.append(t) or t + 3.)
q.set_active()
q.next_event()
q.delay_service()
check(seen == [1., 4.], seen)
""")

bug("c29-bulk-type-of-unknown", "C29", GW,
    [("            if self.adj[e[0]][e[1]].get('edge_type') == edge_type:\n                edges.append(e)\n",
      "            if self.adj[e[0]][e[1]].get('edge_type', edge_type) == edge_type:\n                edges.append(e)\n")],
    "some edges have no type",
    "a query by type returns the edges without type too",
    """
g = qt.QueueNetworkDiGraph(nx.DiGraph([(0, 1)]))
g.add_edge(1, 2)
g.set_ep((1, 2), 'edge_type', 2)
check(g.get_edge_type(2) == [(1, 2)], g.get_edge_type(2))
""")

bug("c30-rows-set-before-refusal", "C30", QN,
    [("            if mat.shape != (self.nV, self.nV):\n", "            if mat.shape[0] != mat.shape[1] or mat.shape[0] < self.nV:\n")],
    "a square matrix that is larger than the number of vertices",
    "it is accepted (or fails with another error)",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 0)]))
m = np.zeros((3, 3))
m[0, 1] = m[1, 0] = m[2, 0] = 1
try:
    net.set_transitions(m)
except ValueError:
    pass
else:
    check(False, 'accepted')
""")
