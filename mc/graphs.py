"""Small graphs: enumeration, insertion orders and the forms a graph can be given in."""
import itertools

import networkx as nx
import numpy as np

import queueing_tool as qt


def pairs(n, loops=True):
    return [(u, v) for u in range(n) for v in range(n) if loops or u != v]


def edge_sets(n, most=None, least=1, loops=True):
    """All edge sets on n vertices with at most `most` edges."""
    ps = pairs(n, loops)
    out = []
    for r in range(least, (most or len(ps)) + 1):
        out += list(itertools.combinations(ps, r))
    return out


def digraph(n, edges, types=None, vorder=None, eorder=None, pos=None, cls=nx.DiGraph):
    """A graph whose vertices and edges are inserted in the given orders."""
    g = cls()
    for v in (vorder if vorder is not None else range(n)):
        if pos is None:
            g.add_node(v)
        else:
            g.add_node(v, pos=pos[v])
    es = list(edges)
    for i in (eorder if eorder is not None else range(len(es))):
        e = es[i]
        if types is None:
            g.add_edge(*e)
        else:
            g.add_edge(*e, edge_type=types[e])
    return g


def positions(n):
    return {v: np.array([0.5 + v, float((v * 7 + 3) % 5)]) for v in range(n)}
