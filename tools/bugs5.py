"""More planted changes (see bugs.py): the ones found by asking for nothing, for little, or for something twice."""

bug("c05-no-departures-wanted", "C05", QS,
    [("        if t is None and nD is None and nA is None:", "        if t is None and not nD and nA is None:")],
    "simulate(nD=0) on a queue with something to do",
    "one event is simulated although no departure was asked for",
    """
q = qt.QueueServer(1, arrival_f=at(1., 2., 3.), service_f=lasting(.25))
q.set_active()
q.simulate(nD=0)
check(q.num_arrivals[0] == 0 and q.current_time == 0, (q.num_arrivals, q.current_time))
""")

bug("c09-load-of-a-full-queue", "C09", QE,
    [("queue._current_t, queue.num_servers, queue.num_system / queue.num_servers",
      "queue._current_t, queue.num_servers, min(queue.num_system, queue.num_servers + queue.buffer) / queue.num_servers")],
    "the number of servers of a finite queue is lowered while it is full, and an informed agent leaves it",
    "the load the agent learns is that of a queue just full, not the actual one",
    """
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
g.add_edge(1, 2, edge_type=0)
args = {1: {'arrival_f': at(1., 2., 3., 4.), 'service_f': lasting(10.), 'num_servers': 4, 'qbuffer': 0, 'AgentFactory': qt.InfoAgent}}
net = qt.QueueNetwork(g, q_classes={1: qt.InfoQueue}, q_args=args)
net.initialize(queues=[0])
net.simulate(n=4)
q = net.edge2queue[0]
q.set_num_servers(2)
a = min(q._departures)
net.simulate(n=1)
check(list(a.net_data[0, :2]) == [11., 2.] and a.net_data[0, 2] in (1.5, 2.), a.net_data[0])
""")

bug("c10-copies-share-colours", "C10", QS,
    [("        return copy.deepcopy(self)", "        new = copy.deepcopy(self)\n        new.colors = self.colors\n        return new")],
    "the colours of a copied queue are changed",
    "the colours of the original change with them",
    """
q = qt.QueueServer(1)
p = q.copy()
before = list(q.colors['edge_color'])
p.colors['edge_color'] = [1, 0, 0, 1]
check(list(q.colors['edge_color']) == before, q.colors)
""")

bug("c18-no-edges-named", "C18", QN,
    [("        if queues is None:\n            queues = range(g.number_of_edges())",
      "        if queues is None or (edge is not None and len(queues) == 0):\n            queues = range(g.number_of_edges())")],
    "data are asked for an empty list of edges",
    "data of all queues are returned",
    """
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
g.add_edge(1, 2, edge_type=0)
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, q_args={1: {'arrival_f': at(1., 2., 3., 4.), 'service_f': lasting(1.)}})
net.start_collecting_data()
net.initialize(queues=[0])
net.simulate(n=6)
check(len(net.get_queue_data()) > 0, 'no data')
check(len(net.get_queue_data(edge=[])) == 0, net.get_queue_data(edge=[]))
""")

bug("c19-types-of-no-edge", "C19", GW,
    [("    for u, ty in edge_type.items():\n", "    for u, ty in ((u, ty) for u, ty in edge_type.items() if len(ty) <= len(adjacency[u])):\n")],
    "a vertex without out-edges, absent from the adjacency, has an empty row of edge types",
    "KeyError instead of a graph",
    """
g = qt.adjacency2graph({0: [1]}, edge_type={0: {1: 2}, 1: {}})
check(sorted((a, b, d['edge_type']) for a, b, d in g.edges(data=True)) == [(0, 1, 2), (1, 1, 0)], g.edges(data=True))
""")

bug("c22-short-paths", "C22", UF,
    [("        while parent != self._leader[parent]:", "        while parent != self._leader[parent] and len(pSet) < 4:")],
    "32 elements merged leader by leader, then the deepest is looked up",
    "its leader is not that of its set",
    """
from queueing_tool.union_find import UnionFind
uf = UnionFind(range(32))
s = 1
while s < 32:
    for i in range(0, 32, 2 * s):
        uf.union(i, i + s)
    s *= 2
check(len({uf.find(i) for i in range(31, -1, -1)}) == 1, [uf.find(i) for i in range(32)])
""")

bug("c26-second-animation", "C26", QN,
    [("        self._update_all_colors()\n        kwargs.setdefault('bgcolor'",
      "        if self._prev_edge is None:\n            self._update_all_colors()\n        kwargs.setdefault('bgcolor'")],
    "animate, simulate, animate again",
    "the second animation starts with the colours of the first",
    """
import matplotlib
matplotlib.use('Agg')
import queueing_tool.network.queue_network as qn


class Film(object):
    def __init__(self, func=None, **kw):
        self.func = func

    def save(self, **kw):
        self.func(0)


qn.FuncAnimation = Film
g = nx.DiGraph()
for i, t in ((0, 1), (1, 2), (2, 3)):
    g.add_edge(i, i + 1, edge_type=t)
g.add_edge(3, 4, edge_type=0)
for v in range(5):
    g.nodes[v]['pos'] = np.array([v, 0.])
args = {1: {'arrival_f': lambda t: t + 1., 'service_f': lasting(.25)},
        2: {'arrival_f': lambda t: INF, 'service_f': lambda t: t + .25},
        3: {'arrival_f': lambda t: INF, 'service_f': lambda t: t + 99.}}
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: qt.QueueServer, 3: qt.QueueServer}, q_args=args)
net.initialize(queues=[0])
net.animate(filename='x')
net.simulate(n=41)
net.animate(filename='x')
seen = {e: [float(x) for x in net.g.ep(e, 'edge_color')] for e in net.g.edges()}
net._update_all_colors()
now = {e: [float(x) for x in net.g.ep(e, 'edge_color')] for e in net.g.edges()}
check(seen == now, (seen, now))
""")

bug("c26-cleared-colours", "C26", QN,
    [("        self._prev_edge = None\n        self._initialized = False\n        self.reset_colors()\n",
      "        if self._initialized and self._prev_edge is not None:\n            self.reset_colors()\n        self._prev_edge = None\n        self._initialized = False\n")],
    "a network is drawn, not animated, and then cleared",
    "the colours of the busy network stay",
    """
import matplotlib
matplotlib.use('Agg')
import os, shutil, tempfile
g = nx.DiGraph()
g.add_edge(0, 1, edge_type=1)
g.add_edge(1, 2, edge_type=0)
for v in range(3):
    g.nodes[v]['pos'] = np.array([v, 0.])
net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer}, q_args={1: {'arrival_f': at(1., 2., 3., 4.), 'service_f': lasting(9.)}})
net.initialize(queues=[0])
net.simulate(n=4)
d = tempfile.mkdtemp()
net.draw(fname=os.path.join(d, 'a.png'))
shutil.rmtree(d)
net.clear()
check([float(x) for x in net.g.ep((0, 1), 'edge_color')] == [float(x) for x in net.edge2queue[0].colors['edge_color']], net.g.ep((0, 1), 'edge_color'))
""")

bug("c29-existing-edge-keeps-property", "C29", GW,
    [("        super(QueueNetworkDiGraph, self).add_edge(*args, **kwargs)\n",
      "        if args[0] in self and args[1] in self._succ[args[0]]:\n            kwargs = dict(kwargs, **self._succ[args[0]][args[1]])\n        super(QueueNetworkDiGraph, self).add_edge(*args, **kwargs)\n")],
    "an edge that is already there is added again with another type",
    "it keeps its old type",
    """
g = qt.QueueNetworkDiGraph(nx.DiGraph([(0, 1), (1, 2)]))
g.add_edge(0, 1, edge_type=1)
g.add_edge(0, 1, edge_type=2)
check(g.ep((0, 1), 'edge_type') == 2 and g.get_edge_type(2) == [(0, 1)], g.ep((0, 1), 'edge_type'))
""")

bug("c29-length-of-backward-edges", "C29", GP,
    [("        latlon1 = g.vp(e[1], 'pos')\n", "        latlon1 = g.vp(max(e), 'pos')\n")],
    "an edge from a higher to a lower vertex",
    "its length is zero",
    """
g = nx.DiGraph([(0, 1), (1, 0)])
g.nodes[0]['pos'] = (0., 0.)
g.nodes[1]['pos'] = (.5, .25)
g = qt.add_edge_lengths(g)
check(g.ep((0, 1), 'edge_length') == g.ep((1, 0), 'edge_length') > 0, [g.ep(e, 'edge_length') for e in g.edges()])
""")

bug("c30-blocking-rule-of-bytes", "C30", QN,
    [("        if not isinstance(blocking, str):\n            raise TypeError(\"blocking must be a string\")\n\n        self._t",
      "        if not hasattr(blocking, 'lower'):\n            raise TypeError(\"blocking must be a string\")\n\n        self._t")],
    "a network is made with blocking=b'RS'",
    "it is accepted, and blocks after service",
    """
try:
    qt.QueueNetwork(nx.DiGraph([(0, 1)]), blocking=b'RS')
except TypeError:
    pass
else:
    check(False, 'accepted')
""")

bug("c12-count-after-giving-back", "C12", QN,
    [("                q2.next_event()\n                self.num_agents[e2] = q2._num_total\n",
      "                q2.next_event()\n                if q2._active or e1 != e2:\n                    self.num_agents[e2] = q2._num_total\n")],
    "an agent that took a resource comes straight back to its queue over a loop, after the queue stopped expecting arrivals",
    "the network counts one agent too many",
    """
g = nx.DiGraph()
g.add_edge(0, 0, edge_type=1)
g.add_edge(0, 1, edge_type=0)
args = {1: {'arrival_f': at(1.), 'service_f': lasting(1.), 'num_servers': 2, 'active_cap': 1}}
net = qt.QueueNetwork(g, q_classes={1: qt.ResourceQueue}, q_args=args)
net.set_transitions({0: {0: 1., 1: 0.}})
net.initialize(queues=[0])
net.simulate(n=2)
check(net.num_agents[0] == 0, net.num_agents)
""")

bug("c16-matrix-kept", "C16", QN,
    [("        if return_matrix:\n            mat = np.zeros((self.nV, self.nV))",
      "        if return_matrix:\n            now = [list(p) for p in self._route_probs]\n            if getattr(self, '_mat', (None, None))[0] == now:\n                return self._mat[1]\n            mat = np.zeros((self.nV, self.nV))\n            self._mat = now, mat")],
    "the matrix returned by transitions() is changed, and transitions() is called again",
    "the changed matrix is returned as the network's",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (0, 2)]))
m = net.transitions()
m[0, 1] = 1.
check(net.transitions()[0, 1] == .5, net.transitions())
""")

bug("c13-routing-in-thousandths", "C13", AG,
    [("        u = uniform()\n", "        u = int(1000 * uniform()) / 1000.\n")],
    "a probability that is no multiple of a thousandth",
    "an edge of probability .0004 is taken with probability .001",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 2), (1, 3)]), seed=1)
net.set_transitions({1: {2: .0004, 3: .9996}})
np.random.seed(1)
a = qt.Agent()
e = net.edge2queue[0].edge
k = sum(net.edge2queue[a.desired_destination(net, e)].edge[1] == 2 for _ in range(200000))
check(40 < k < 130, k)
""")

bug("c13-remembered-destination", "C13", AG,
    [("        u = uniform()\n", "        if self.blocked > 1 and getattr(self, '_dest', None) in network.out_edges[edge[1]]:\n            return self._dest\n        u = uniform()\n"),
     ("        return network.out_edges[edge[1]][k]\n", "        self._dest = network.out_edges[edge[1]][k]\n        return self._dest\n")],
    "an agent that is refused twice at the same vertex",
    "its next attempts all lead where the last one led",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 2), (1, 3)]), seed=1)
e = net.edge2queue[0].edge
a = qt.Agent()
a.desired_destination(net, e)
a.blocked = 2
check(len(set(a.desired_destination(net, e) for _ in range(200))) == 2, 'always the same destination')
""")

bug("c13-probabilities-of-the-source", "C13", AG,
    [("        pr = network._route_probs[edge[1]]\n", "        pr = network._route_probs[edge[0] if self.blocked and len(network.out_edges[edge[0]]) == n else edge[1]]\n")],
    "a refused agent on an edge between two vertices with as many out-edges and other probabilities",
    "its next attempt follows the probabilities of the vertex it came from",
    """
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (0, 4), (1, 2), (1, 3)]), seed=1)
net.set_transitions({0: {1: 1., 4: 0.}, 1: {2: 0., 3: 1.}})
e = [q.edge for q in net.edge2queue if q.edge[:2] == (0, 1)][0]
a = qt.Agent()
a.blocked = 1
check(net.edge2queue[a.desired_destination(net, e)].edge[1] == 3, 'goes to 2')
""")

bug("c05-stops-before-the-last-arrival", "C05", QS,
    [("            while self._current_t < then and self._time < infty:\n", "            while self._current_t < then and self._time < infty and (self._active or self.num_system or self._time <= then):\n")],
    "an empty queue whose last arrival is further ahead than the time asked for",
    "simulate(t=...) stops before the time it was told",
    """
q = qt.QueueServer(arrival_f=at(5., 6.), service_f=lasting(1.), active_cap=1)
q.set_active()
q.simulate(t=2)
check(q.current_time >= 2, q.current_time)
""")

bug("c05-handed-over-counts-as-arrival", "C05", QS,
    [("            while self._oArrivals < num_arrivals and self._time < infty:\n", "            while max(self._oArrivals, self._num_arrivals) < num_arrivals and self._time < infty:\n")],
    "agents came from other queues, more than came from outside",
    "simulate(nA=...) sees fewer arrivals than asked for",
    """
q = qt.QueueServer(arrival_f=lambda t: t + 1, service_f=lasting(.1))
for k in range(3):
    a = qt.Agent((9, k))
    a._time = .1 * k
    q._add_arrival(a)
    q.next_event()
q.set_active()
k = q.num_arrivals[1]
q.simulate(nA=2)
check(q.num_arrivals[1] - k == 2, q.num_arrivals)
""")

bug("c26-highlight-remains", "C26", QN,
    [("        self.draw(update_colors=False, **kwargs)\n        self._update_all_colors()\n\n    def simulate",
      "        self.draw(update_colors=False, **kwargs)\n        if self._initialized:\n            self._update_all_colors()\n\n    def simulate")],
    "show_type on a network that was not initialized yet, and a picture without updating the colours",
    "the type is still highlighted",
    """
import matplotlib
matplotlib.use('Agg')
net = qt.QueueNetwork(nx.DiGraph([(0, 1), (1, 2)]), seed=1)
net.draw()
before = [list(net.g.ep(e, 'edge_color')) for e in sorted(net.g.edges())]
net.show_type(edge_type=1)
after = [list(net.g.ep(e, 'edge_color')) for e in sorted(net.g.edges())]
check(before == after, (before, after))
""")
