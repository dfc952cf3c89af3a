"""Writes techniques.json: the deciding method and the assurance of each check."""
import json, os
TAIL = ' Nothing is claimed outside the stated alphabets, depths and words. Trusts the public seams of the harness, CPython and numpy.'
Q = 'stateless model checking of the real queue under a controlled environment: every operation sequence with bounded deviations and every arrival/service answer of a small alphabet, '
N = 'stateless model checking of the real network under a controlled environment: every route, arrival and service answer of small alphabets on small graphs, '
E = 'exhaustive enumeration of inputs on the real code up to a size, '
R = 'exhaustive enumeration of every outcome of every random draw (discretised, with exact probabilities) of the real code, '
T = {
 'C01': Q + 'each event judged against a reference multi-server FIFO queue' + '; long histories under every periodic environment up to a word length',
 'C02': Q + 'each event judged against a ledger of agents kept from the notifications' + '; long histories under every periodic environment up to a word length',
 'C03': Q + 'activation, deactivation, caps and stopping times judged against a reference arrival process' + '; long histories under every periodic environment up to a word length',
 'C04': Q + 'each announcement compared with the event that follows and with the reference schedule' + '; long histories under every periodic environment up to a word length',
 'C05': Q + 'every form and every split of simulate() compared with single steps' + '; long histories under every periodic environment up to a word length',
 'C06': Q + 'each arrival judged against the reference occupancy' + '; long histories under every periodic environment up to a word length',
 'C07': 'stateless model checking of real queues and networks: every history, with collection switched, cleared and read at every point up to a bound, rows compared with a reference book' + '; long histories under every periodic environment up to a word length',
 'C08': N + 'resources counted at queues and agents after every event' + '; long histories under every periodic environment up to a word length',
 'C09': N + 'every record compared with the true history of its queue and with what was known before' + '; long histories under every periodic environment up to a word length',
 'C10': Q + 'differential: cleared against new, copy against original, in every interleaving up to a bound' + '; long histories under every periodic environment up to a word length',
 'C11': N + 'each event compared with the reference schedule; simulate(n), simulate(t) compared with single steps' + '; long histories under every periodic environment up to a word length',
 'C12': N + 'agents tracked from notifications, counts compared after every event' + '; long histories under every periodic environment up to a word length',
 'C13': R + 'routing frequencies computed exactly; greedy choice checked in every explored state' + '; long histories under every periodic environment up to a word length',
 'C14': N + 'moves and blockings judged against the reference occupancy, both blocking rules' + '; long histories under every periodic environment up to a word length',
 'C15': N + 'agents counted after every event, arrivals demanded while there is room' + '; long histories under every periodic environment up to a word length',
 'C16': E + 'all small digraphs, insertion orders, forms and probability tables, valid and invalid',
 'C17': N + 'differential: copy and original interleaved against networks never copied, cleared against new' + '; long histories under every periodic environment up to a word length',
 'C18': E + 'all subsets and forms of selection; ' + N + 'journeys compared with tracked agents' + '; long histories under every periodic environment up to a word length',
 'C19': E + 'all small adjacencies with all edge types in every accepted form',
 'C20': E + 'all small digraphs, typings, insertion orders and argument tables',
 'C21': 'explicit enumeration of all push/pop sequences up to a depth on the real compiled heap, against a dictionary; the same runs under AddressSanitizer',
 'C22': 'explicit enumeration of all merge/look-up sequences up to a depth on the real structure, against a partition',
 'C23': R + 'probabilities and graphs compared with exact references on all small graphs',
 'C24': R + 'acceptance probabilities computed exactly for a set of rate functions',
 'C25': E + 'all subsets and forms of request; ' + R + 'activation probabilities; repeated initialisation in every small history',
 'C26': N + 'differential: histories drawn at every point against plain ones; animation frames against plain steps; all insertion orders; pictures read from matplotlib artists',
 'C27': 'stateless model checking of pairs of real queues and networks: all interleavings up to a number of turn changes, differential against each alone; seeds and prior uses enumerated',
 'C28': Q + 'delays inserted at every point, compared with the reference schedule' + '; long histories under every periodic environment up to a word length',
 'C29': 'explicit enumeration of all sequences of edge and property operations up to a depth on the real graph, against dictionaries',
 'C30': 'stateless model checking of the real queues and networks: every invalid request at every point of every history up to a depth, compared with a twin that never got the request',
}
here = os.path.dirname(os.path.abspath(__file__))
json.dump({k: {'technique': v, 'note': 'Every execution within the stated bounds is run on the implementation rebuilt from the working tree.' + TAIL} for k, v in T.items()},
          open(os.path.join(here, 'techniques.json'), 'w'), indent=1)
