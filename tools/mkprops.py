"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
QS, QE, AG = ('queueing_tool/queues/queue_servers.py', 'queueing_tool/queues/queue_extentions.py',
              'queueing_tool/queues/agents.py')
QN, PQ, CH = ('queueing_tool/network/queue_network.py', 'queueing_tool/network/priority_queue.pyx',
              'queueing_tool/queues/choice.pyx')
GW, GP, GF, GG, UF = ('queueing_tool/graph/graph_wrapper.py', 'queueing_tool/graph/graph_preparation.py',
                      'queueing_tool/graph/graph_functions.py', 'queueing_tool/graph/graph_generation.py',
                      'queueing_tool/union_find.py')
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': None}})


prop('C01', 'Queues serve first-come first-served, never idle and never over-committed',
     'At every queue, under any mix of simulated events and changes of the number of servers, agents begin service '
     'in the order in which they arrived, no agent waits while fewer agents are in service than there are servers, and '
     'no service begins that puts more agents in service than there are servers; a service once begun is not interrupted. '
     'A service begins at the very instant the agent arrives or a place becomes free, and the agent departs exactly at '
     'the time the service function returned for that instant.',
     ['histories', 'inputs'], 'every sequence of arrivals, departures and server-count changes (also to and from '
     'infinity), and every assignment of inter-arrival and service times, ties included',
     'The tests compare long-run averages with queueing formulas and call set_num_servers once; no test follows individual '
     'agents, and none changes the number of servers down and then up while agents are waiting.',
     [QS], [('start service on arrival / on departure', QS + ' QueueServer.next_event'),
            ('start waiting agents when servers are added', QS + ' QueueServer.set_num_servers')],
     [('num_system / queue / num_servers', 'in system, waiting line, places', QS)],
     ['service_f calls', 'Agent.queue_action', 'number_queued()', 'num_system'])

prop('C02', 'Agents at a queue are conserved and every lifecycle step is reported once',
     'After every event, the number of agents in a queue equals the agents admitted so far minus the agents that departed, '
     'and equals those in service plus those waiting in line; the arrival and departure counters count every real event '
     'exactly once. On each visit an agent is notified exactly once of its arrival, then of its start of service, then of '
     'its departure, and the agents a queue creates carry pairwise distinct ids made of the edge index and a running number.',
     ['histories'], 'every event sequence of every queue class, external and internal arrivals mixed',
     'Tests look at totals after one random run; a lost, duplicated or twice-notified agent in a rare interleaving leaves the totals plausible.',
     [QS, QE], [('counters', QS + ' QueueServer.next_event, LossQueue.next_event'), ('ids', QS + ' QueueServer._add_arrival')],
     [('num_system, num_departures, num_arrivals', 'event counters', QS)], ['queue_action', 'num_arrivals', 'num_departures', 'num_system'])

prop('C03', 'External arrivals obey activation, the active cap and the deactivation time',
     'An active queue has exactly one future external arrival scheduled, at the time the arrival function returned when '
     'called with the then current time, until its cap or deactivation time is reached, whereupon it becomes inactive. The '
     'number of agents ever created from outside never exceeds the cap, no external arrival takes place at or after the '
     'deactivation time, and an inactive queue schedules none (one scheduled earlier still arrives). Activating or '
     'deactivating at any moment, repeatedly, never duplicates, loses or re-times a scheduled arrival.',
     ['histories', 'configurations'], 'every interleaving of set_active / set_inactive with events; caps from 0 up; every deactivation time relative to the arrival times; all queue classes',
     'One test per feature with one cap/time and no re-activation; InfoQueue and re-activation after the cap are never reached.',
     [QS, QE], [('external arrival scheduling', QS + ' QueueServer._add_arrival; ' + QE + ' InfoQueue._add_arrival'), ('activation', QS + ' set_active/set_inactive')],
     [('active_cap, deactive_t, active', 'limits on external arrivals', QS)], ['arrival_f calls', 'AgentFactory calls', 'active', 'num_arrivals[1]'])

prop('C04', 'A queue\'s clock, next-event time and next-event kind are truthful and monotone',
     'The clock of a queue never runs backwards and always equals the time of the event it processed last. The announced '
     'time and kind (arrival, departure, nothing) of the next event are always those of the event that then takes place, '
     'which is the earliest one scheduled; none is skipped, repeated or brought forward. A queue with nothing scheduled announces infinity and '
     'nothing, and simulating it changes nothing.',
     ['histories'], 'every operation sequence and every time assignment, ties included',
     'Tests assert monotonicity of one random trajectory; they cannot reach stale next-event times left by rare update orders.',
     [QS, QE], [('next time bookkeeping', QS + ' _update_time, _add_arrival, delay_service'), ('event selection', QS + ' next_event, next_event_description')],
     [('time, current_time', 'next event time, last event time', QS)], ['time', 'current_time', 'next_event_description()'])

prop('C05', 'simulate() on a queue stops exactly where it says, and always stops',
     'Simulating a queue by events processes exactly that many events (or all that are left); by duration it processes events up to '
     'and including the first one at or after the start plus the duration; by departures or external arrivals it stops exactly '
     'when that many more have been counted. Each form returns as soon as nothing is scheduled any more, and splitting a run '
     'into several calls produces the same history as one call.',
     ['histories', 'inputs'], 'every stop rule and size at every reachable state, including drained, inactive and full queues',
     'The tests use one size per rule on a queue with endless arrivals; drained queues and split runs are not tried.',
     [QS], [('stop rules', QS + ' QueueServer.simulate')], [], ['num_departures', 'num_arrivals', 'current_time'])

prop('C06', 'A finite-capacity queue admits exactly the agents that fit',
     'A finite-capacity queue turns an arrival away if and only if the agents in it already fill its servers plus its buffer '
     'at that moment, and its at-capacity answer says exactly that. A turned-away agent is counted as blocked once and told so once, never waits or is '
     'served there, is not counted as an arrival or a departure, and does not disturb the others or the stream of '
     'external arrivals.',
     ['histories', 'configurations'], 'every sequence of arrivals/departures/server changes for every small number of servers and buffer size, infinite buffers included',
     'Tests check the blocking proportion of one long run for one configuration.',
     [QS], [('admission', QS + ' LossQueue.next_event, at_capacity')], [('num_blocked, buffer', 'rejections, waiting room', QS)],
     ['at_capacity()', 'num_blocked', 'Agent.add_loss', 'Agent.queue_action'])

prop('C07', 'Collected data rows tell each visit truthfully',
     'While data collection is on, a queue records exactly one row per visit of an agent: its arrival time, service start and '
     'departure times (zero until they happen, and zero for turned-away agents), the number waiting and the number in the queue just after the arrival '
     '(just before it for a turned-away agent), and the edge index, returned in order of arrival. While collection is off nothing is '
     'recorded or changed, and collecting or reading data never changes the simulation.',
     ['histories'], 'every event sequence, repeated visits, blocked visits, and collection switched on and off at every point between events',
     'Tests compare aggregate columns of one run with collection always on.',
     [QS, QE, QN], [('row creation and update', QS + ' next_event, _service_from_queue'), ('read-out', QS + ' fetch_data')],
     [('data', 'agent id -> list of rows', QS)], ['fetch_data()', 'data'])

prop('C08', 'Resources at resource queues are neither created nor destroyed',
     'In any network of resource queues and resource agents, the number of servers at all resource queues plus the number of '
     'resources carried by agents never changes. An agent takes one resource exactly when it departs from a resource queue without carrying one '
     'and a server is left; an agent that arrives carrying one hands exactly one to that queue and leaves the system; an arrival that finds the queue full '
     'is turned away like at any finite-capacity queue and external arrivals go on. over_max counts exactly the resources handed in while the number of '
     'servers was already at its maximum.',
     ['histories'], 'every sequence of departures and arrivals of agents with and without resources, queues emptied of servers included',
     'The one test watches a single queue\'s total; taking or returning at the wrong moment cancels out there.',
     [QE], [('take on departure', QE + ' ResourceAgent.queue_action'), ('return on arrival', QE + ' ResourceQueue.next_event')],
     [('num_servers, over_max', 'resources here, overflow count', QE)], ['num_servers', 'over_max', 'num_blocked'])

prop('C09', 'Network information carried by agents is true and never gets staler',
     'Every record an information queue or an information agent holds about a queue is either "unknown" or the number of servers and the load '
     'that queue really had at the recorded time, which is never in the future. A record is only ever replaced by one that is at least as recent; when an '
     'agent arrives at an information queue the queue knows at least what the agent knew, and a departing agent knows at least what the queue knows, the queue\'s own current load included. Records held by a queue change only when an agent arrives there.',
     ['histories'], 'every routing and timing of information agents over small networks, blocked arrivals and ties included',
     'A test checks only that information is present after a run, not that it is true or fresh.',
     [QE], [('merge into queue', QE + ' InfoQueue.extract_information, next_event'), ('merge into agent and stamp', QE + ' InfoAgent.queue_action')],
     [('net_data', 'time, servers, load per edge', QE)], ['net_data', 'get_beliefs()'])

prop('C10', 'A cleared queue is as good as new; a copied queue is a faithful, separate twin',
     'After clearing, a queue behaves under every later operation exactly like a newly built queue with the same settings, with zero '
     'counters, no agents, no data, no blocked counts and inactive. A copy has the same observable state and the same future '
     'as the original, and operating on either one never affects the other.',
     ['histories'], 'every state reached by an operation sequence, followed by clear or copy, followed by every operation sequence; all queue classes',
     'Tests compare a few attributes right after clear/copy in one state, never the future behaviour.',
     [QS, QE], [('clear', QS + ' clear; ' + QE + ' clear'), ('copy', QS + ' copy')], [], ['all public queue observers'])

prop('C11', 'The network always processes the earliest event and tells the truth about it',
     'In a network of queues events take place in non-decreasing time order, each one being the earliest scheduled at any queue, and none is '
     'skipped, repeated or invented. The network clock is the time of the last event, and the announced time, kind and edge of the '
     'next event are those of the event that then takes place; with nothing scheduled it announces nothing. Simulating n events or a duration '
     'processes exactly n events, or events up to and including the first at or beyond the duration, and comes back when nothing is left.',
     ['histories', 'schedules'], 'every routing, timing (ties included), blocking mode and queue class on small topologies with cycles, loops and terminal edges',
     'Tests check order along one random trajectory; stale duplicates in the event heap only matter after particular rescheduling sequences.',
     [QN, PQ], [('event loop', QN + ' _simulate_next_event'), ('lazy-deletion heap', PQ)],
     [('_fancy_heap', 'next event time per queue', QN)], ['time', 'current_time', 'next_event_description()', 'num_events'])

prop('C12', 'Agents in a network are conserved and the network\'s counts are exact',
     'Every agent that entered the network is at exactly one queue, or left through a terminal edge, or was turned away from outside; moving from '
     'one queue to the next takes no time and neither loses, duplicates nor swaps agents. The per-queue agent counts equal those in the queue plus '
     'those scheduled to arrive there, and the event count equals external arrivals plus moves (successful or blocked) that took place.',
     ['histories', 'schedules'], 'every routing and timing on small topologies with cycles, loops, terminal edges and finite queues',
     'Tests compare sums after a random run; compensating errors and short-lived discrepancies pass.',
     [QN, QS], [('move', QN + ' _simulate_next_event')], [('num_agents, num_events', 'per-edge counts, events', QN)],
     ['num_agents', 'num_events', 'queue_action log'])

prop('C13', 'Routing follows the graph and exactly the configured probabilities',
     'An agent leaving an edge always goes to an out-edge of the vertex that edge points to, and a plain agent goes to each of these with exactly the '
     'probability configured for it, zero-probability edges never being taken. A greedy agent takes the out-edge with the fewest agents waiting, the '
     'first such in the out-edge order on ties.',
     ['inputs', 'configurations'], 'every out-degree up to a bound, every probability vector on a grid, every random draw on a grid, every small vector of line lengths',
     'Tests estimate proportions statistically with wide tolerance for one vertex.',
     [AG, CH, QN], [('choice', CH + ' _choice'), ('argmin', CH + ' _argmin'), ('destination', AG + ' desired_destination')], [],
     ['desired_destination()', 'edges visited'])

prop('C14', 'Blocked agents wait or are served again, never lost, never overfilling a queue',
     'An agent inside the network whose chosen destination is full is never lost and never enters it: with blocking after service it stays at its queue until '
     'a departure from the full queue can make room, and with repetitive service it receives another full service where it is; each attempt is counted as blocked once, at '
     'the destination and at the agent. No finite queue in a network ever holds more agents than servers plus buffer because of moves, except an agent that re-enters the queue it is '
     'leaving, whose place it keeps; a move to a queue with room always succeeds.',
     ['histories', 'schedules'], 'every order of departures, external arrivals (ties included) and retries over small tandem, merging and cyclic topologies in both blocking modes',
     'One statistical test with a high blocked count; which agent is blocked, when it retries, and simultaneous arrivals are not examined.',
     [QN, QS], [('blocking', QN + ' _simulate_next_event'), ('reschedule', QS + ' delay_service')], [('blocked, num_blocked', 'attempt counters', AG)],
     ['num_blocked', 'Agent.blocked', 'num_system', 'queue_action log'])

prop('C15', 'The number of agents in a network never exceeds max_agents',
     'At no time does the network hold more agents (those in queues plus those scheduled to arrive from outside) than its configured maximum, however many queues are activated and '
     'whatever the order of events; while below the maximum, activated queues keep producing arrivals.',
     ['histories', 'configurations'], 'every maximum from 1 up, every number of activated queues, every event order on small topologies',
     'One test, one maximum, one random run.',
     [QN], [('deactivate at the cap', QN + ' _simulate_next_event, initialize')], [('max_agents', 'bound', QN)], ['num_agents'])

prop('C16', 'Routing probabilities can be set and read back; invalid ones are refused',
     'Whatever valid routing probabilities are set, as a matrix or as a dictionary of some vertices, are exactly the ones read back in both forms, in every vertex '
     'and edge order of the graph, and all other vertices keep theirs. Probabilities that do not form a distribution over the out-edges of a vertex (negative, not summing to one, '
     'placed on absent edges), wrong shapes, unknown vertices and wrong types are refused with the documented error, and the default is equal weight on each out-edge.',
     ['inputs', 'configurations'], 'every small directed graph and insertion order, every row of probabilities on a grid including invalid ones, dict and matrix forms',
     'Tests set one random matrix on one graph and a few invalid ones.',
     [QN], [('set/read', QN + ' set_transitions, transitions')], [('_route_probs', 'probabilities per vertex in out-edge order', QN)], ['transitions()', 'exceptions'])

prop('C17', 'A copied network has the same separate future, a cleared one is as good as new',
     'A copy of a network is observably equal to it at the moment of copying, evolves exactly as the original would under the same random outcomes, supports every operation the '
     'original supports, and neither network is ever affected by what is done to the other. After clearing, a network has no agents, events, time or data, refuses to simulate until initialised, and then behaves exactly like a newly built '
     'one with the same settings.',
     ['histories'], 'every state reached by an event sequence, followed by copy/clear, followed by every event sequence on either side',
     'Tests compare a few attributes just after copy/clear.',
     [QN, GW], [('copy', QN + ' QueueNetwork.copy'), ('clear', QN + ' QueueNetwork.clear')], [], ['all public network observers'])

prop('C18', 'Data selection names exactly the chosen queues and both views agree with them',
     'Starting, stopping, clearing and reading data by queue index, edge, edge type, a collection of any of these, or nothing (meaning all) acts on exactly the named queues. The data read out by queue and by '
     'agent contain exactly the rows the selected queues recorded, each tagged with its edge index, an agent\'s rows being in order of arrival and telling one '
     'continuous journey: each visit begins when the previous one ended.',
     ['inputs', 'histories'], 'every selector form and every subset of edges on small graphs; every small history for the row contents',
     'Tests use one or two selector forms on one graph.',
     [QN, QS], [('selection', QN + ' _get_queues'), ('read-out', QN + ' get_agent_data, get_queue_data')], [], ['get_agent_data()', 'get_queue_data()', 'collect_data'])

prop('C19', 'Adjacency input in any form yields exactly the described graph',
     'From an adjacency list given as dict of lists, dict of dicts or matrix, with or without edge types in any of these forms, the graph built has exactly the described edges with exactly the '
     'described types (type 1 when unspecified); only vertices without out-edges are adjusted: either a single type 0 loop is added to each, or every edge into them becomes type 0. Converting the graph back gives the same adjacency.',
     ['inputs'], 'every directed graph with up to 3 vertices (all adjacency patterns) in every input form and both adjustments, and a grid of edge types',
     'Doctest-sized examples only.',
     [GW, GF], [('normalise', GW + ' adjacency2graph, _adjacency_adjust'), ('back', GF + ' graph2dict')], [], ['edges and edge_type of the result', 'graph2dict()'])

prop('C20', 'Every edge carries the queue its type asks for, wired to the right vertices',
     'Building a network puts on every edge exactly one queue whose class and arguments are those given for the edge\'s type (the documented default class when none is given), which '
     'knows its source, target, edge index and type; the in-edge and out-edge tables list exactly the graph\'s edges at each vertex, in whatever order vertices and edges were inserted. Edges into '
     'terminal vertices become exits; the caller\'s graph is left as it was.',
     ['configurations', 'inputs'], 'every directed graph with up to 3 vertices, all vertex insertion orders, every assignment of a small set of edge types and classes',
     'Tests build a handful of graphs whose vertices were inserted in sorted order.',
     [QN, GP, GW], [('queue creation', GP + ' _set_queues'), ('tables', QN + ' QueueNetwork.__init__'), ('indexing', GW + ' edge_index')], [], ['edge2queue', 'in_edges', 'out_edges', 'g'])

prop('C21', 'The event heap returns current entries in time order and is memory-safe',
     'For every sequence of pushes and pops, starting from any set of initial entries, the network\'s event priority queue pops the smallest time among the latest entries of all keys, never an entry superseded '
     'by a later push for the same key, reports emptiness only when nothing valid is left, and never reads or writes outside its storage as it grows.',
     ['histories'], 'every push/pop sequence up to a depth over a few keys and times, from every small initial content, empty included',
     'Tests push random entries a few times; growth boundaries and superseded entries at the top in particular orders are not covered.',
     [PQ], [('heap', PQ + ' push, pop, heappop, _siftup, _siftdown, heapify')], [('q_times', 'latest time per key', PQ)], ['pop()', 'size', 'times', 'edges'])

prop('C22', 'Union-find always represents exactly the merges performed',
     'After any sequence of merges and look-ups, two elements have the same leader if and only if merges connect them; the size of a set and the number of sets are exact, and the leader is a member of its set. '
     'Merging elements of one set changes nothing.',
     ['histories'], 'every sequence of union/find/size operations up to a depth over up to five elements of any hashable kind',
     'Tests run one random sequence.',
     [UF], [('union by rank with path compression', UF + ' find, union')], [('_leader, _size, _rank', 'forest', UF)], ['find()', 'size()', 'nClusters'])

prop('C23', 'Random graph generators deliver what they promise for every random outcome',
     'A generated transition matrix is, for every random outcome, zero off the edges and a distribution on the out-edges of each vertex that has any; randomly typed graphs get only the types offered, loops and other edges '
     'from their own table with exactly the given probabilities, and tables that do not sum to one are refused. Minimal random graphs have all requested vertices and '
     'connect exactly the pairs no farther apart than the smallest distance that makes them connected; rank typing marks exactly the requested top share of vertices with loops and leaves all other edges type 1.',
     ['inputs', 'configurations'], 'every outcome of the random draws on a grid, every small graph, sizes from 1 up, all shares including 0 and 1',
     'Tests use one seed per generator and compare proportions loosely.',
     [GG, UF], [('generators', GG)], [], ['returned graphs and matrices'])

prop('C24', 'Thinned Poisson arrivals accept candidates exactly in proportion to the rate',
     'The next arrival time drawn for a time-varying rate is the first candidate of a stream of exponential steps at the maximal rate that survives an acceptance test, each candidate being accepted with '
     'exactly the probability rate at the candidate time over maximal rate. It is strictly after the start time, and no arrival ever falls where the rate is zero.',
     ['inputs'], 'every sequence of random draws on a grid up to a number of rejections, several rate functions and maxima',
     'A statistical test cannot separate small acceptance errors or evaluation at the wrong time.',
     [QS], [('thinning', QS + ' poisson_random_measure')], [], ['returned time'])

prop('C25', 'initialize() activates exactly the requested queues',
     'Initialising a network activates exactly the queues named by index, edge or edge type in any accepted form, or the requested number of distinct queues each non-terminal queue being equally likely, never a '
     'terminal queue; impossible requests are refused with the documented errors and leave the network as it was. It can be repeated at any time without losing, duplicating or re-timing scheduled events.',
     ['configurations', 'inputs', 'histories'], 'every selector form and subset on small networks, every number of queues, every random choice, initial and mid-run',
     'Tests try a few selectors once on a fresh network.',
     [QN], [('selection', QN + ' initialize, _get_queues')], [], ['active', 'num_agents', 'exceptions'])

prop('C26', 'Drawing and animating never disturb a simulation and show the right queues',
     'Drawing, showing active queues or edge types, animating, or resetting colours at any moment leaves the simulation\'s state and future untouched; an animation runs the same history as plain simulation. Whenever the '
     'network is drawn, each edge and vertex shows the colour and position computed for its own queues and vertex, in whatever order vertices and edges were inserted.',
     ['histories', 'configurations'], 'every small history with drawing operations inserted at every point; every vertex and edge insertion order of small graphs',
     'Tests only check that drawing runs.',
     [QN, GW, GP], [('colours', QN + ' _update_all_colors, _update_graph_colors, reset_colors'), ('positions', GW + ' set_pos, lines_scatter_args')], [], ['lines_scatter_args()', 'edge and vertex colours'])

prop('C27', 'Queues and networks in one process are independent, and seeds reproduce runs',
     'Two queues or networks built separately never influence each other, in whatever order their operations are interleaved: each shows exactly the history it shows alone, even when built from the same arguments. A run is determined by its construction and its random draws: the same seed and '
     'calls give the same history whatever was run before.',
     ['schedules', 'histories'], 'all interleavings of two operation sequences up to a depth, for all queue classes and small networks; a set of seeds and prior uses of the random generator',
     'Tests use one object per test.',
     [QS, QE, QN, GG], [('instance state', QS + ' __init__; ' + QN + ' __init__'), ('seeding', 'seed parameters')], [], ['all public observers'])

prop('C28', 'Delaying a service moves exactly one departure',
     'Delaying service at a queue re-times exactly the next departure, either to the given time or by one further service time drawn at that departure time, and leaves every other '
     'scheduled event, the line and all counters as they were; the announced next event is then right. With no agent in service it does nothing.',
     ['histories'], 'delays of every kind inserted at every point of every small event sequence',
     'One test, one delay of each kind.',
     [QS], [('delay', QS + ' delay_service')], [], ['time', 'departure times', 'next_event_description()'])

prop('C29', 'Edge indices number the edges one-to-one; properties stay with their owner',
     'In a graph wrapper the edge indices always number the edges 0 to E-1 without gaps or repeats, through any sequence of adding edges (new, repeated or loops), and an existing edge keeps its index. A property set on an edge or vertex is read back from that edge or '
     'vertex only, and queries by edge type return exactly the edges of that type. The length computed for an edge depends only on the positions of its two ends.',
     ['histories', 'inputs'], 'every sequence of add-edge / property operations up to a depth on small graphs in all insertion orders',
     'Tests set one property on one graph.',
     [GW], [('index', GW + ' QueueNetworkDiGraph.add_edge, __init__'), ('properties', GW + ' set_ep, set_vp')], [('edge_index', 'edge -> index', GW)], ['edge_index', 'ep()', 'vp()', 'get_edge_type()'])

prop('C30', 'Invalid requests are refused with the documented error and leave no trace',
     'A request that the documentation declares invalid - a number of servers that is no positive integer, a number of queues to '
     'activate below one or not an integer, only terminal queues to activate, simulating or animating before initialization, a blocking '
     'rule that is no string, routing probabilities that are no distribution or belong to no vertex, edge type tables that do not sum '
     'to one, something that is no graph - raises the documented exception whatever the state of the queue or network, and '
     'afterwards queue, network, graph and arguments are as if it had never been made, now and in their whole later history.',
     ['histories', 'inputs'], 'every listed kind of invalid request at every point of every history of queues and networks, before initialization and after clear() included',
     'The tests make a few invalid requests on fresh objects and look at the exception only, never at what the refused request left behind.',
     [QS, QN, GG, GF, GW], [('validation', QS + ' __init__, set_num_servers; ' + QN + ' initialize, set_transitions, simulate, animate, blocking; ' + GG + ' set_types_random')],
     [('num_servers, transitions, blocking', 'settings', QS + '; ' + QN)], ['exceptions', 'all public observers', 'later events'])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
