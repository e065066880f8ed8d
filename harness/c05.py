"""All directed graphs on at most 4 nodes (cyclic ones included; 3^6 on 4) under several namings and edge insertion orders, and random ones up to 12 nodes; topological order and acyclicity compared with an independent cycle search. Non-trivial: has an edge."""
from harness.common import *

BOUND = "at most 12 nodes"
nontrivial = lambda c: bool(c["arcs"])


def cases(rng, tier):
    for n in (0, 1, 2, 3, 4):
        for arcs in all_digraphs(n):
            a = [list(x) for x in arcs]
            rng.shuffle(a)
            yield {"kind": "all", "n": n, "arcs": a, "names": rng.randrange(5)}
    for i in range(1500 if tier == "quick" else 30000):
        n = rng.randrange(5, 13)
        arcs = rand_dag(rng, n, rng.choice((.15, .3, .6))) if rng.random() < .6 else rand_digraph(rng, n, rng.choice((.1, .2, .4)))
        arcs = [list(x) for x in arcs]
        rng.shuffle(arcs)
        yield {"kind": "random", "n": n, "arcs": arcs, "names": rng.randrange(5)}


def check(case):
    n, arcs = case["n"], [tuple(a) for a in case["arcs"]]
    nodes = names(case["names"], n)
    g = mk_digraph(nodes, arcs)
    s0 = snap(g)
    ac = acyclic(n, arcs)
    order = list(g.topo_sort())
    need(len(set(order)) == len(order), lambda: "order %r repeats a node" % (order,))
    need(set(order) <= set(nodes), lambda: "order %r has a foreign node" % (order,))
    pos = {u: i for i, u in enumerate(order)}
    for u, v in arcs:
        if nodes[v] in pos:
            need(nodes[u] in pos and pos[nodes[u]] < pos[nodes[v]], lambda: "order %r lists %r before its parent %r" % (order, nodes[v], nodes[u]))
    need((len(order) == n) == ac, lambda: "order %r of %d nodes; graph is %sacyclic" % (order, n, "" if ac else "not "))
    r = g.is_acyclic()
    need(bool(r) == ac, lambda: "is_acyclic() is %r; graph is %sacyclic" % (r, "" if ac else "not "))
    need(snap(g) == s0, "the queries changed the graph")
