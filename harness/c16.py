"""Pairs of graphs of the three kinds on 0 to 7 nodes (equal copies, one to three edits apart, independent, built in another edge order, reordered or renamed nodes, different kinds); equality and structural distance against a pair-by-pair comparison, both ways round. Non-trivial: comparable graphs with an edge."""
from harness.common import *
from cdmir.utils.metrics.graph_evaluation import graph_equal, shd

BOUND = "at most 7 nodes"
nontrivial = lambda c: c["rel"] not in ("reorder", "rename", "kind") and c["edges"]
KINDS = {"Graph": Graph, "DiGraph": DiGraph, "PDAG": PDAG}
LEGAL = {"Graph": [(x, y) for x in (T, A, C) for y in (T, A, C)], "DiGraph": [(T, A), (A, T)], "PDAG": [(x, y) for x in (T, A) for y in (T, A)]}


class Sub(PDAG):
    pass


def cases(rng, tier):
    for i in range(1500 if tier == "quick" else 30000):
        kind = rng.choice(list(KINDS))
        n = rng.choice((0, 1, 2, 3, 4, 5, 7))
        p = rng.choice((.2, .5, .9))
        edges = [(u, v) + rng.choice(LEGAL[kind]) for u, v in itertools.combinations(range(n), 2) if rng.random() < p]
        rel = rng.choice(("same", "shuffled", "edit", "edit", "edit", "edit3", "other", "reorder", "rename", "kind", "flip"))
        yield {"kind": kind, "n": n, "edges": edges, "rel": rel, "seed": rng.randrange(10 ** 9), "names": rng.randrange(5)}


def build(cls, nodes, edges):
    g = cls(list(nodes))
    for u, v, x, y in edges:
        if cls is DiGraph and x == A:
            u, v, x, y = v, u, y, x
        g.add_edge(Edge(nodes[u], nodes[v], Mark(x), Mark(y)))
    return g


def check(case):
    r = rng_of(case["seed"])
    n, kind = case["n"], case["kind"]
    nodes = list(names(case["names"], n))
    e1 = [tuple(e) for e in case["edges"]]
    e2, nodes2, cls2 = list(e1), list(nodes), KINDS[kind]
    rel = case["rel"]
    if rel == "shuffled":
        r.shuffle(e2)
        e2 = [(v, u, y, x) if r.random() < .5 else (u, v, x, y) for u, v, x, y in e2]
    for _ in range({"edit": 1, "edit3": 3}.get(rel, 0)):
        if n >= 2:
            u, v = sorted(r.sample(range(n), 2))
            old = [e for e in e2 if e[:2] == (u, v)]
            e2 = [e for e in e2 if e[:2] != (u, v)]
            if not old or r.random() < .6:
                e2.append((u, v) + r.choice(LEGAL[kind]))
    if rel == "flip":
        e2 = [(u, v, y, x) for u, v, x, y in e2]
    if rel == "other":
        e2 = [(u, v) + r.choice(LEGAL[kind]) for u, v in itertools.combinations(range(n), 2) if r.random() < .5]
    if rel == "reorder":
        r.shuffle(nodes2)
        pos = {v: i for i, v in enumerate(nodes2)}
        e2 = [(pos[nodes[u]], pos[nodes[v]], x, y) for u, v, x, y in e2]
    if rel == "rename":
        nodes2 = nodes2[:-1] + ["other"] if nodes2 else ["other"]
    if rel == "kind":
        cls2 = Sub if kind == "PDAG" else PDAG if kind == "DiGraph" else Graph
        if kind == "Graph":
            cls2, e2 = DiGraph, [(u, v, T, A) for u, v, _, _ in e2]
    g, h = build(KINDS[kind], nodes, e1), build(cls2, nodes2, e2)
    m1, m2 = marks_of(g), marks_of(h)
    s1, s2 = snap(g), snap(h)
    refuse = type(g) is not type(h) or nodes != nodes2
    diff = sum(1 for u, v in itertools.combinations(range(n), 2) if s1[2][nodes[u]].get(nodes[v]) != s2[2].get(nodes[u], {}).get(nodes[v]) or s1[2][nodes[v]].get(nodes[u]) != s2[2].get(nodes[v], {}).get(nodes[u])) if not refuse else None
    for a, b in ((g, h), (h, g)):
        for f in (graph_equal, shd):
            try:
                got = f(a, b)
            except AssertionError:
                got = "refused"
            want = "refused" if refuse else (diff == 0) if f is graph_equal else diff
            need(got == want and (refuse or f is shd or bool(got) is want), lambda: "%s gives %r, expected %r (%d differing pairs)" % (f.__name__, got, want, diff or 0))
    need(snap(g) == s1 and snap(h) == s2, "a graph was modified by the comparison")
