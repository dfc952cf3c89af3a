"""More planted changes (see bugs.py)."""

bug("c01-one-agent-per-new-server-pair", "C01", QS,
    [("            for _ in range(agents_to_queue):\n", "            for _ in range(min(agents_to_queue, max(1, len(self.queue) // 2 + 1))):\n")],
    "several servers added at once while at least three agents wait",
    "servers stay idle although agents wait",
    """
q = qt.QueueServer(1, arrival_f=at(1, 1.1, 1.2, 1.3), service_f=lasting(50))
q.set_active()
for _ in range(4):
    q.next_event()
q.set_num_servers(4)
check(q.number_queued() == 0, q.number_queued())
""")

bug("c03-cap-counts-all-arrivals", "C03", QS,
    [("                if self._oArrivals >= self.active_cap:\n", "                if max(self._oArrivals, self._num_arrivals) >= self.active_cap:\n")],
    "a queue with active_cap that also gets agents from other queues",
    "agents from elsewhere count towards the cap of outside arrivals",
    """
g = nx.DiGraph()
for e, t in (((0, 1), 1), ((1, 2), 2), ((2, 3), 0)):
    g.add_edge(*e, edge_type=t)
args = {1: {'arrival_f': at(1, 1.1, 1.2, 1.3, 1.4), 'service_f': lasting(.01)},
        2: {'arrival_f': at(10, 20, 30, 40, 50), 'service_f': lasting(.01), 'active_cap': 3}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args=args)
net.initialize(edge_type=[1, 2])
net.simulate(n=60)
check(net.edge2queue[1].num_arrivals == [8, 3], net.edge2queue[1].num_arrivals)
""")

bug("c05-duration-stops-on-idle", "C05", QS,
    [("            while self._current_t < then and self._time < infty:", "            while self._current_t < then and self._time < infty and (self._time <= 2 * then or self.num_system > 0):")],
    "an idle queue whose next arrival lies beyond twice the end of the period",
    "the event at or after the end of the period is not processed",
    """
q = qt.QueueServer(1, arrival_f=at(1, 100), service_f=lasting(.5))
q.set_active()
q.simulate(t=5)
check(q.current_time == 100., q.current_time)
""")

bug("c05-arrivals-for-ever", "C05", QS,
    [("            while self._oArrivals < num_arrivals and self._time < infty:", "            while self._oArrivals < num_arrivals:")],
    "simulate(nA=...) on a queue that gets fewer arrivals than asked for",
    "simulate never returns",
    """
q = qt.QueueServer(1, arrival_f=at(1, 2, 3), service_f=lasting(.1), active_cap=2)
q.set_active()
signal.alarm(10)
q.simulate(nA=5)
""")

bug("c06-refused-while-serving-few", "C06", QS,
    [("            if self.num_system < self.num_servers + self.buffer:", "            if self.num_system < self.num_servers + min(self.buffer, 50):")],
    "a buffer above fifty (an unlimited one, for instance) and more agents waiting than that",
    "agents are refused although there is room",
    """
q = qt.LossQueue(qbuffer=60, num_servers=1, arrival_f=lambda t: t + 1, service_f=lasting(1000))
q.set_active()
for _ in range(62):
    q.next_event()
check(q.num_blocked == 1 and q.num_system == 61, (q.num_blocked, q.num_system))
""")

bug("c11-duration-from-pending-event", "C11", QN,
    [("            while self._t < now + t and self.time < np.infty:", "            while self._t < now + t and self.time < np.infty and (self.num_events or self.time <= now + t):")],
    "simulate(t=...) on a network that has not simulated anything, with the first event beyond t",
    "no event is processed, the clock stays before now + t",
    """
g = nx.DiGraph([(0, 1), (1, 0)])
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, q_args={1: {'arrival_f': at(9.), 'service_f': lasting(1.)}})
net.initialize(queues=0)
net.simulate(t=2)
check(net.current_time == 9., net.current_time)
""")

bug("c13-probability-read-per-type", "C13", AG,
    [("        n = len(network.out_edges[edge[1]])\n        if n <= 1:", "        n = len(network.out_edges[edge[1]])\n        if n <= 1 or (n == 2 and network._route_probs[edge[1]][0] > 0.999):")],
    "two out-edges and a first probability between .999 and 1",
    "the second edge is never taken",
    """
class Net(object):
    out_edges = [[0, 1]]
    _route_probs = [np.array([.9995, .0005])]


import queueing_tool.queues.agents as m
m.uniform = lambda *a: .9999
a = qt.Agent()
check(a.desired_destination(Net, (0, 0, 0, 1)) == 1, 'the second edge is never taken')
""")

bug("c14-repeated-service-drops-blocked", "C14", QN,
    [("                q1._departures[0].blocked += 1\n", "                q1._departures[0].blocked += not q1._departures[0].blocked\n")],
    "an agent that is blocked a second time",
    "the agent counts only its first blocking",
    """
g = nx.DiGraph()
for e, t in (((0, 1), 1), ((1, 2), 2), ((2, 3), 0)):
    g.add_edge(*e, edge_type=t)
seen = []
args = {1: {'arrival_f': at(1., 2.), 'service_f': lasting(.1), 'AgentFactory': lambda i: seen.append(qt.Agent(i)) or seen[-1]},
        2: {'arrival_f': at(), 'service_f': lasting(9.)}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.LossQueue}, q_args=args, blocking='RS')
net.initialize(edge_type=1)
net.simulate(n=6)
check([a.blocked for a in seen] == [0, net.edge2queue[1].num_blocked], [a.blocked for a in seen])
""")

bug("c16-small-rows-accepted", "C16", QN,
    [("                elif (np.array(probs) < 0).any():", "                elif (np.array(probs) < -1e-3).any():")],
    "a dictionary with a slightly negative probability",
    "the transition probabilities are accepted",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (0, 2), (1, 0), (2, 0)]))
try:
    net.set_transitions({0: {1: 1.0005, 2: -.0005}})
except ValueError:
    pass
else:
    check(False, 'accepted')
""")

bug("c17-copy-of-limit", "C17", QN,
    [("        net._initialized = copy.deepcopy(self._initialized)", "        net._initialized = self.num_events > 0")],
    "copying a network that is initialized but has not simulated anything",
    "the copy refuses to simulate",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 0)]), seed=1)
net.initialize()
net.copy().simulate(n=2)
""")

bug("c18-single-visit-order", "C18", QN,
    [("            datum = np.sort(datum, order='a')", "            datum = np.sort(datum, order='a') if len(datum) > 2 else datum")],
    "the data of an agent with exactly two visits, the later one in a queue with a smaller index",
    "the visits are not in order of arrival",
    """
g = nx.DiGraph()
for e, t in (((1, 2), 1), ((2, 0), 2), ((0, 3), 2), ((3, 4), 0)):
    g.add_edge(*e, edge_type=t)
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args={k: {'arrival_f': at(1.), 'service_f': lasting(1.)} for k in (1, 2)})
net.start_collecting_data()
net.stop_collecting_data(edge=(2, 0))
net.stop_collecting_data(edge=(3, 4))
net.initialize(edge_type=1)
net.simulate(n=4)
d = net.get_agent_data()
check(all((x[1:, 0] >= x[:-1, 0]).all() for x in d.values()), d)
""")

bug("c19-type-matrix-transposed", "C19", GW,
    [("                adj[k][j] = {} if not etype else matrix[k, j]", "                adj[k][j] = {} if not etype else matrix[max(k, j), min(k, j)] or matrix[k, j]")],
    "edge types given as a matrix that is not symmetric",
    "an edge has the type of the opposite edge",
    """
adj = np.array([[0, 1], [1, 0]])
g = qt.adjacency2graph(adj, edge_type=np.array([[0, 2], [3, 0]]))
check(g[0][1]['edge_type'] == 2 and g[1][0]['edge_type'] == 3, list(g.edges(data=True)))
""")

bug("c21-grown-arrays-keep-old-view", "C21", PQ,
    [("            self.sorted_times = self.array_times\n            self.sorted_edges = self.array_edges\n\n            self.sorted_times[self.size] = t\n            self.sorted_edges[self.size] = k\n",
      "            self.sorted_times = self.array_times\n            self.sorted_edges = self.array_edges\n\n            self.sorted_times[self.size] = t\n            self.sorted_edges[self.size] = k\n            if self.size > 6 and t < self.sorted_times[1]:\n                self.sorted_times[self.size] = self.sorted_times[1]\n")],
    "a push that makes the arrays grow beyond seven entries with a key below the second one",
    "the entry gets another time than its key",
    """
from queueing_tool.network.priority_queue import PriorityQueue
h = PriorityQueue([], 9)
for k in range(7):
    h.push(10. + k, k)
h.push(1., 7)
check(h.pop() == (1., 7), 'the earliest entry does not come first')
""")

bug("c24-idle-periods-skipped", "C24", QS,
    [("        t = t + exponential(scale)\n    return t", "        t = t + (exponential(scale) if rate(t) > 0 else 1.0)\n    return t")],
    "a rate function that is zero for a while, with bursts shorter than a unit of time",
    "candidates jump by a whole unit while the rate is zero, so arrivals after such a pause are late or missed",
    """
np.random.seed(3)
got = [qt.poisson_random_measure(0., lambda t: 4. * (t % 1 > .9), 4.) % 1 for _ in range(4000)]
t, n = 0., 0
while t < 2000:
    t = qt.poisson_random_measure(t, lambda t: 4. * (.4 < t % 1 < .5), 4.)
    n += 1
check(740 < n < 860, n)
""")

bug("c26-inactive-shown-active", "C26", QN,
    [("                if self.edge2queue[ei]._active:\n                    is_active = True\n                    break\n", "                if self.edge2queue[ei]._active or self.edge2queue[ei].num_system:\n                    is_active = True\n                    break\n")],
    "a vertex whose queues are not active but hold agents",
    "show_active colours it as active",
    """
import queueing_tool.network.queue_network as m
g = nx.DiGraph()
for e, t in (((0, 1), 1), ((1, 2), 2), ((2, 3), 0)):
    g.add_edge(*e, edge_type=t)
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer}, q_args={k: {'arrival_f': at(1.), 'service_f': lasting(1., 90.)} for k in (1, 2)})
net.initialize(edge_type=1)
net.simulate(n=2)
seen = []
net.draw = lambda **k: seen.append([list(net.g.vp(v, 'vertex_fill_color')) for v in range(4)])
net.show_active()
check(net.edge2queue[1].num_system == 1, net.edge2queue)
check(seen[0][2] == net.colors['vertex_inactive'], seen)
""")

bug("c02-agents-counted-once", "C02", QS,
    [("            self.num_departures += 1\n", "            self.num_departures += 1 if self.num_servers < 100 else bool(self.num_servers < 1e9 or self.num_departures % 2)\n")],
    "a queue with unlimited servers, from the second departure on",
    "departures are not all counted",
    """
q = qt.QueueServer(INF if False else np.infty, arrival_f=at(1., 2., 3.), service_f=lasting(.1))
q.set_active()
for _ in range(6):
    q.next_event()
check(q.num_departures == 3, q.num_departures)
""")

bug("c29-selfloop-index", "C29", GW,
    [("        return e in self.edge_index", "        return e in self.edge_index and self.edge_index[e] < 1000")],
    "more than a thousand edges", "is_edge denies an edge",
    """
g = qt.QueueNetworkDiGraph(nx.complete_graph(40).to_directed())
check(all(g.is_edge(e) for e in g.edges()), 'an edge is denied')
""")

bug("c08-lost-over-max", "C08", QE,
    [("                        self.over_max += 1\n\n                    self.set_num_servers(self.num_servers + 1)", "                        self.over_max += 1\n\n                    self.set_num_servers(min(self.num_servers + 1, self.max_servers))")],
    "resources brought to a queue that already has twice its servers",
    "a resource disappears",
    """
donor = qt.ResourceQueue(num_servers=4, arrival_f=at(1, 2, 3, 4), service_f=lasting(.1))
donor.set_active()
got = []
while donor.time < INF:
    a = donor.next_event()
    if a is not None:
        got.append(a)
q = qt.ResourceQueue(num_servers=1, service_f=lasting(1))
for a in got:
    a._time = 9.
    q._add_arrival(a)
    q.next_event()
check(len(got) == 4 and q.num_servers == 5, (len(got), q.num_servers))
""")

bug("c08-last-server-stays", "C08", QE,
    [("            if not self._has_resource and queue.num_servers > 0:", "            if not self._has_resource and queue.num_servers > (queue.num_blocked > 0):")],
    "a resource queue that has refused someone and has one server left",
    "an agent leaves without a resource although there is one",
    """
q = qt.ResourceQueue(num_servers=1, arrival_f=at(1, 1.5), service_f=lasting(1))
q.set_active()
for _ in range(3):
    q.next_event()
check(q.num_servers == 0, q.num_servers)
""")


bug("c30-half-initialized", "C30", QN,
    [("        if len(queues) == 0:\n            raise QueueingToolError", "        self._initialized = True\n\n        if len(queues) == 0:\n            raise QueueingToolError"),
     ("        self._fancy_heap = PriorityQueue(keys, self.nE)\n        self._initialized = True\n\n    def next_event_description", "        self._fancy_heap = PriorityQueue(keys, self.nE)\n\n    def next_event_description")],
    "an initialization that names terminal queues only, refused, before the first one that is accepted",
    "a network whose initialization was refused can be simulated",
    """
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
g.add_edge(1, 2, edge_type=0)
net = qt.QueueNetwork(g)
try:
    net.initialize(edge_type=0)
    check(False, 'accepted')
except qt.QueueingToolError:
    pass
try:
    net.simulate(n=1)
    check(False, 'simulates without having been initialized')
except qt.QueueingToolError:
    pass
""")

bug("c30-servers-set-first", "C30", QS,
    [('            the_str = "n must be a positive integer or infinity.\\n{0}"\n            raise ValueError(the_str.format(str(self)))',
      '            n, self.num_servers = self.num_servers, n\n            the_str = "n must be a positive integer or infinity.\\n{0}"\n            raise ValueError(the_str.format(str(self)))')],
    "a refused, not positive number of servers, on a queue that is used afterwards",
    "the refused number of servers is kept: the queue never serves again",
    """
q = qt.QueueServer(num_servers=2, arrival_f=at(1, 2), service_f=lasting(1))
q.set_active()
try:
    q.set_num_servers(0)
    check(False, 'accepted')
except ValueError:
    pass
check(q.num_servers == 2, q.num_servers)
""")

bug("c30-types-before-sums", "C30", GG,
    [("    if not np.isclose(sum(props), 1.0):\n", "    if g.edge_index:\n        g.new_edge_property('edge_type')\n\n    if not np.isclose(sum(props), 1.0):\n")],
    "a graph wrapper with edge types, and a table of types that does not sum to one",
    "the refused call has forgotten all edge types",
    """
g = qt.QueueNetworkDiGraph(nx.DiGraph([(0, 1), (1, 0)]))
g.new_edge_property('edge_type')
for e in g.edges():
    g.set_ep(e, 'edge_type', 2)
try:
    qt.set_types_random(g, proportions={1: .5})
    check(False, 'accepted')
except ValueError:
    pass
check([g.ep(e, 'edge_type') for e in g.edges()] == [2, 2], 'types lost')
""")

bug("c30-blocking-by-first-letter", "C30", QN,
    [("        if not isinstance(tmp, str):\n            raise TypeError(\"blocking must be a string\")\n        self._blocking = True", "        if not isinstance(tmp, str):\n            self._blocking = tmp is not False\n            raise TypeError(\"blocking must be a string\")\n        self._blocking = True")],
    "a refused blocking rule given to a network that uses RS",
    "the refused request switches the network to BAS",
    """
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
net = qt.QueueNetwork(g, blocking='RS')
try:
    net.blocking = 1
    check(False, 'accepted')
except TypeError:
    pass
check(net.blocking == 'RS', net.blocking)
""")
