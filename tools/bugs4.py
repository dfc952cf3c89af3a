"""More planted changes (see bugs.py): the ones that depend on settings that ought not to matter."""

bug("c01-returning-first-when-recorded", "C01", QS,
    [("            else:\n                self.queue.append(arrival)\n",
      "            elif self.collect_data and len(self.data[arrival.agent_id]) > 1:\n                self.queue.appendleft(arrival)\n            else:\n                self.queue.append(arrival)\n")],
    "the queue collects data and an agent visits it a second time while others wait",
    "the returning agent goes to the head of the line",
    """
q = qt.QueueServer(1, arrival_f=at(1., 2., 3.), service_f=lasting(.5, 9.), collect_data=True, edge=(0, 0, 0, 1))
q.set_active()
q.simulate(n=1)
a = q.next_event()          # leaves at 1.5
q.simulate(n=2)             # 2: in service, 3: waits
a._time = 4.
q._add_arrival(a)
q.next_event()
check([x.agent_id for x in q.queue][0] != a.agent_id, 'the returning agent is first in line')
""")

bug("c04-nearly-simultaneous", "C04", QS,
    [("        if self._arrivals[0]._time < self._departures[0]._time:\n            self._time = self._arrivals[0]._time\n\n    def at_cap",
      "        if self._arrivals[0]._time < self._departures[0]._time - 1e-7:\n            self._time = self._arrivals[0]._time\n\n    def at_cap")],
    "an agent from another queue arrives less than 1e-7 before a departure",
    "the announced time of the next event is that of the later one",
    """
q = qt.QueueServer(1, arrival_f=at(1.), service_f=lasting(1.))
q.set_active()
q.next_event()
a = qt.Agent()
a._time = 2. - 2. ** -30
q._add_arrival(a)
check(q.time == 2. - 2. ** -30, q.time)
""")

bug("c07-arrival-at-zero", "C07", QS,
    [("        for d in self.data.values():\n            qdata.extend(d)", "        for d in self.data.values():\n            qdata.extend(r for r in d if r[0])")],
    "an agent arrives at time zero exactly",
    "its visit is missing from the data",
    """
q = qt.QueueServer(1, arrival_f=at(0., 2.), service_f=lasting(1.), collect_data=True)
q.set_active()
q.simulate(n=4)
check(len(q.fetch_data()) == 2, q.fetch_data())
""")

bug("c09-news-of-time-zero", "C09", QE,
    [("            a = self.net_data[:, 0] < agent.net_data[:, 0]", "            a = (self.net_data[:, 0] < agent.net_data[:, 0]) & (agent.net_data[:, 0] > 0)")],
    "an information agent passes on what it saw at time zero",
    "the news is not taken",
    """
net_size = 2
one = qt.InfoQueue(net_size, qbuffer=9, num_servers=1, edge=(0, 1, 0, 1), arrival_f=at(0.), service_f=lasting(1.), AgentFactory=qt.InfoAgent)
two = qt.InfoQueue(net_size, qbuffer=9, num_servers=1, edge=(1, 2, 1, 1), arrival_f=at(), service_f=lasting(1.))
one.set_active()
one.next_event()
a = one.next_event()
a._time = 1.
a.net_data[0] = (0., 3., 2.)      # as observed at time zero
two._add_arrival(a)
two.next_event()
check(list(two.net_data[0]) == [0., 3., 2.], two.net_data)
""")

bug("c10-idle-data-shared", "C10", QS,
    [("        return copy.deepcopy(self)\n", "        new = copy.deepcopy(self)\n        if not self.collect_data:\n            new.data = self.data\n        return new\n")],
    "a queue is copied while it does not collect data, and collection is switched on later",
    "the copy and the original write into the same record",
    """
q = qt.QueueServer(1, arrival_f=lambda t: t + 2., service_f=lasting(1.))
q.set_active()
q.simulate(n=3)
c = q.copy()
q.collect_data = True
q.simulate(n=4)
check(len(q.fetch_data()) and not len(c.fetch_data()), c.fetch_data())
""")

bug("c16-tiny-probability-dropped", "C16", QN,
    [("                    self._route_probs[k][j] = mat[k, e[1]]", "                    self._route_probs[k][j] = mat[k, e[1]] if mat[k, e[1]] > 1e-12 else 0")],
    "a matrix gives a probability below 1e-12",
    "the probability is replaced by zero",
    """
g = qt.adjacency2graph({0: [1, 2], 1: [0], 2: [0]})
net = qt.QueueNetwork(g, adjust_graph=False)
m = np.zeros((3, 3))
m[0, 1], m[0, 2], m[1, 0], m[2, 0] = 1 - 1e-15, 1e-15, 1, 1
net.set_transitions(m)
check(net.transitions(False)[0][2] == 1e-15, net.transitions(False))
""")

bug("c18-number-in-a-byte", "C18", QN,
    [("            data[agent_id] = np.array([tuple(d) for d in datum])", "            data[agent_id] = np.array([tuple(d) for d in datum])\n            data[agent_id][:, 5] = data[agent_id][:, 5].astype(np.int8)")],
    "a network with more than 127 queues",
    "the last column of get_agent_data names another queue",
    """
n = 160
g = nx.DiGraph()
for k in range(n):
    g.add_edge(k, k + 1, edge_type=1 if k == n - 1 else 2)
g.add_edge(n, n + 1, edge_type=0)
args = {1: {'arrival_f': at(1., 2.), 'service_f': lasting(1.), 'collect_data': True}, 2: {'arrival_f': at(), 'service_f': lasting(1.)}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args=args, adjust_graph=False) if False else \\
    qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args=args)
net.initialize(edge_type=1)
net.simulate(n=4)
for rows in net.get_agent_data().values():
    check((rows[:, 5] == n - 1).all(), rows)
""")

bug("c23-distances-rounded", "C23", GG,
    [("            edges.append((k, j, v[0]**2 + v[1]**2))", "            edges.append((k, j, round(v[0]**2 + v[1]**2, 6)))")],
    "two pairs of points with nearly the same distance",
    "an edge longer than the shortest connecting radius is in the graph",
    """
import itertools
x = (.01 - 1e-9) / .4
pts = np.array([[0., 0.], [.2, 0.], [x, (.01 - x * x) ** .5]])
real = np.random.random
np.random.random = lambda size=None: pts.copy()
try:
    import queueing_tool.graph.graph_generation as gg
    g = qt.minimal_random_graph(3)
finally:
    np.random.random = real
d2 = lambda e: float(((10 * pts[e[0]] - 10 * pts[e[1]]) ** 2).sum())
pairs = sorted(itertools.combinations(range(3), 2), key=d2)
for k in range(1, 4):
    h = nx.Graph()
    h.add_nodes_from(range(3))
    h.add_edges_from(pairs[:k])
    if nx.is_connected(h):
        break
r = d2(pairs[k - 1])
want = {p for p in pairs if d2(p) <= r}
got = {tuple(sorted(e)) for e in g.edges() if e[0] != e[1]}
check(got == want, (got, want))
""")

bug("c25-inactive-first", "C25", QN,
    [("                n = min(nActive, len(qs))", "                if 0 < nActive < len([k for k in qs if not self.edge2queue[k]._active]) - 1:\n                    qs = [k for k in qs if not self.edge2queue[k]._active]\n                n = min(nActive, len(qs))")],
    "a network with an active queue is initialized again with a small nActive",
    "the queues are drawn from the inactive ones only, not from all",
    """
def again(seed):
    g = nx.DiGraph()
    for k in range(5):
        g.add_edge(k, (k + 1) % 5, edge_type=1)
    g.add_edge(0, 5, edge_type=0)
    net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, seed=seed)
    net.initialize(queues=[0])
    net.initialize(nActive=1)
    return sum(q.active for q in net.edge2queue)
got = {again(s) for s in range(60)}
check(got == {1, 2}, got)
""")

bug("c26-six-edges-count", "C26", QN,
    [("            for ei in self.in_edges[v]:\n                nSy", "            for ei in self.in_edges[v][:6]:\n                nSy")],
    "a vertex with more than six edges leading to it, agents on the last of them",
    "the shade of the vertex leaves those agents out",
    """
g = nx.DiGraph()
for k in range(1, 9):
    g.add_edge(k, 0, edge_type=k)
g.add_edge(0, 9, edge_type=0)
args = {k: {'arrival_f': at(1., 2.) if k == 8 else at(), 'service_f': lasting(99.)} for k in range(1, 9)}
net = qt.QueueNetwork(g, q_classes={k: qt.QueueServer for k in range(1, 9)}, q_args=args)
net.initialize(edge_type=8)
net._update_all_colors()
before = list(net.g.vp(0, 'vertex_fill_color'))
net.simulate(n=2)
net._update_all_colors()
check(list(net.g.vp(0, 'vertex_fill_color')) != before, before)
""")

bug("c28-infinite-delay-served-again", "C28", QS,
    [("            if t is None:\n                agent._time = self.service_f(agent._time)", "            if t is None or t == infty:\n                agent._time = self.service_f(agent._time)")],
    "delay_service is given infinity",
    "the agent gets another service instead of never departing",
    """
q = qt.QueueServer(1, arrival_f=at(1.), service_f=lasting(1.))
q.set_active()
q.next_event()
q.delay_service(INF)
check(q.time == INF, q.time)
""")

bug("c13-thirty-two-ways", "C13", AG,
    [("        n = len(network.out_edges[edge[1]])\n", "        n = min(len(network.out_edges[edge[1]]), 32)\n")],
    "a vertex with more than 32 edges out of it",
    "agents never choose the edges past the 32nd",
    """
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
for k in range(40):
    g.add_edge(1, 2 + k, edge_type=0)
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, q_args={1: {'arrival_f': lambda t: t + 1., 'service_f': lasting(.5)}}, seed=3)
net.set_transitions({1: {2 + k: (0. if k < 39 else 1.) for k in range(40)}})
net.initialize(edge_type=1)
want = [i for i, q in enumerate(net.edge2queue) if q.edge[:2] == (1, 41)][0]
a = qt.Agent()
check(a.desired_destination(net, net.edge2queue[0].edge) == want, 'another edge is chosen')
""")

bug("c26-loop-is-no-entrance", "C26", QN,
    [("            my_iter = g.in_edges(v) if g.is_directed() else g.out_edges(v)",
      "            my_iter = [e for e in g.in_edges(v) if e[0] != e[1]] or g.in_edges(v)")],
    "a vertex whose loop is the only active queue leading to it, among other queues that lead to it",
    "show_active shows the vertex as inactive",
    """
import matplotlib
matplotlib.use('Agg')
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
g.add_edge(1, 1, edge_type=2)
g.add_edge(1, 2, edge_type=0)
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer})
net.initialize(edge_type=2)
seen = []
net.draw = lambda **kw: seen.append(list(net.g.vp(1, 'vertex_fill_color')))
net.show_active()
check(seen == [list(net.colors['vertex_active'])], seen)
""")

bug("c13-often-blocked-leaves-loop", "C13", AG,
    [("        k = _choice(pr, u, n)\n",
      "        k = _choice(pr, u, n)\n        if self.blocked > 2 and network.out_edges[edge[1]][k] == edge[2]:\n            k = max(range(n), key=lambda i: pr[i])\n")],
    "an agent that was blocked three times on its way and now draws the loop it sits on",
    "the agent takes the most likely edge instead, so the configured probabilities do not hold",
    """
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
g.add_edge(1, 1, edge_type=1)
g.add_edge(1, 2, edge_type=0)
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, seed=11)
net.set_transitions({1: {1: 0.25, 2: 0.75}})
loop = [i for i, q in enumerate(net.edge2queue) if q.edge[:2] == (1, 1)][0]
a = qt.Agent()
a.blocked = 5
n = sum(a.desired_destination(net, net.edge2queue[loop].edge) == loop for _ in range(4000))
check(800 < n < 1200, n)
""")

bug("c10-clear-takes-surplus-servers", "C10", QE,
    [("        super(ResourceQueue, self).clear()\n", "        super(ResourceQueue, self).clear()\n        self.num_servers = min(self.num_servers, self.max_servers)\n")],
    "a resource queue that holds more servers than max_servers is cleared",
    "the surplus servers are gone, the cleared queue differs from a new one with the same settings",
    """
q = qt.ResourceQueue(num_servers=2)
q.set_num_servers(7)
q.clear()
check(q.num_servers == 7, q.num_servers)
""")

bug("c04-crowded-tie", "C04", QS,
    [("        if self._departures[0]._time < self._arrivals[0]._time:\n            return 2\n        elif self._arrivals[0]._time < infty:\n            return 1",
      "        if self._departures[0]._time < self._arrivals[0]._time or \\\n                (len(self._departures) > 64 and self._departures[0]._time <= self._arrivals[0]._time):\n            return 2\n        elif self._arrivals[0]._time < infty:\n            return 1")],
    "more than 63 agents in service and a departure due at the very time of an arrival",
    "a departure is announced, then an arrival takes place",
    """
q = qt.QueueServer(100, arrival_f=lambda t: t + 1., service_f=lasting(80.))
q.set_active()
q.simulate(n=80)
a, d, kind = q.num_arrivals[0], q.num_departures, q.next_event_description()
q.next_event()
check((kind == 1) == (q.num_arrivals[0] == a + 1), (kind, q))
""")

bug("c05-tiny-span", "C05", QS,
    [("            then = self._current_t + t\n", "            then = self._current_t + (t if t > 1e-6 else 0)\n")],
    "simulate(t=...) with a span below a millionth",
    "nothing is simulated although time is left",
    """
q = qt.QueueServer(1, arrival_f=at(1e-7, 2e-7, 3e-7), service_f=lasting(9.))
q.set_active()
q.simulate(t=2e-7)
check(q.current_time == 2e-7, q.current_time)
""")

bug("c28-halted-queue-stays-halted", "C28", QS,
    [("            heappush(self._departures, agent)\n            self._update_time()\n\n    def _service",
      "            heappush(self._departures, agent)\n            if self._time < infty:\n                self._update_time()\n\n    def _service")],
    "the only agent of a queue without further arrivals is delayed for ever, and then to a given time",
    "the queue announces that nothing will happen any more and the agent never departs in simulate(t=...)",
    """
q = qt.QueueServer(1, arrival_f=at(1.), service_f=lasting(2.), active_cap=1)
q.set_active()
q.next_event()
q.delay_service(INF)
q.delay_service(7.)
check(q.time == 7., q.time)
q.simulate(t=20.)
check(q.num_departures == 1, q)
""")

bug("c11-last-arrival-left-out", "C11", QN,
    [("        keys = [q._key() for q in self.edge2queue if q._time < np.infty]",
      "        keys = [q._key() for q in self.edge2queue if q._time < np.infty and\n                (q._active or q.num_system > 0 or q.num_arrivals[0] == 0)]")],
    "a queue that has reached its cap, is empty, and still expects its last arrival when initialize is called again",
    "its arrival is never processed and the network announces a later event",
    """
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
g.add_edge(1, 2, edge_type=2)
g.add_edge(2, 3, edge_type=0)
args = {1: {'arrival_f': at(1., 9.), 'service_f': lasting(1.), 'active_cap': 2}, 2: {'arrival_f': at(50.), 'service_f': lasting(1.)}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args=args)
net.initialize(edge_type=1)
net.simulate(n=3)
net.initialize(edge_type=2)
check(net.time == 9., net.time)
""")
