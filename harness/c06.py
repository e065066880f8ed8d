"""All DAGs on at most 4 nodes with every start node and conditioning set, all 4-node cyclic digraphs sampled, random DAGs/digraphs up to 9 nodes; the conditioning collection given as list, tuple, set, iterator, generator, dict and by default; compared with an independent walk over active trails, and (acyclic, small) with the moralised ancestral graph criterion. Non-trivial: has an edge."""
from harness.common import *
import numpy as np
from cdmir.utils.independence.dsep import Dsep

BOUND = "at most 9 nodes"
nontrivial = lambda c: bool(c["arcs"])
KINDS = ("list", "tuple", "set", "iter", "gen", "dict", "frozenset", "dup")


def coll(kind, zs):
    return {"list": list, "tuple": tuple, "set": set, "iter": iter, "gen": lambda l: (q for q in l), "dict": dict.fromkeys,
            "frozenset": frozenset, "dup": lambda l: list(l) + list(l)}[kind](zs)


def cases(rng, tier):
    for n in (1, 2, 3, 4):
        for arcs in all_dags(n):
            if n == 4 and tier == "quick" and rng.random() < .35:
                continue
            for x in range(n):
                for k in range(n + 1):
                    for z in itertools.combinations(range(n), k):
                        if n == 4 and tier == "quick" and rng.random() < .6:
                            continue
                        yield {"kind": "all", "n": n, "arcs": arcs, "x": x, "z": list(z), "coll": KINDS[rng.randrange(8)] if z or rng.random() < .5 else "default", "names": rng.randrange(5)}
    for i in range(2500 if tier == "quick" else 60000):
        n = rng.randrange(4, 10)
        arcs = rand_dag(rng, n, rng.choice((.2, .35, .6))) if rng.random() < .8 else rand_digraph(rng, n, .35)
        z = rng.sample(range(n), rng.randrange(0, min(n, 5)))
        yield {"kind": "random", "n": n, "arcs": arcs, "x": rng.randrange(n), "z": z, "coll": KINDS[rng.randrange(8)] if z or rng.random() < .5 else "default", "names": rng.randrange(5)}


def moral_sep(n, arcs, x, y, z):
    pa = {i: {u for u, v in arcs if v == i} for i in range(n)}
    anc, todo = set(), [x, y] + list(z)
    while todo:
        u = todo.pop()
        if u not in anc:
            anc.add(u)
            todo += pa[u]
    nb = {u: set() for u in anc}
    for v in anc:
        for u in pa[v]:
            nb[u].add(v), nb[v].add(u)
        for a, b in itertools.combinations(pa[v], 2):
            nb[a].add(b), nb[b].add(a)
    seen, todo = set(), [x]
    while todo:
        u = todo.pop()
        if u in seen or u in z:
            continue
        seen.add(u)
        todo += nb[u]
    return y not in seen


def check(case):
    n, arcs, x, z = case["n"], [tuple(a) for a in case["arcs"]], case["x"], case["z"]
    nodes = names(case["names"], n)
    g = mk_digraph(nodes, arcs)
    s0 = snap(g)
    want = active_reach(n, arcs, x, z)
    zs = [nodes[i] for i in z]
    arg = lambda: () if case["coll"] == "default" else (coll(case["coll"], zs),)
    got = list(g.get_reachable_nodes(nodes[x], *arg()))
    wn = {nodes[i] for i in want}
    need(set(got) == wn, lambda: "reachable from %r given %s %r: %r, active trails reach %r" % (nodes[x], case["coll"], zs, sorted(set(got), key=str), sorted(wn, key=str)))
    ac = acyclic(n, arcs)
    for y in range(n):
        r = g.is_d_separate(nodes[x], nodes[y], *arg())
        need(bool(r) == (y not in want), lambda: "is_d_separate(%r, %r, %s %r) is %r" % (nodes[x], nodes[y], case["coll"], zs, r))
        if ac and y != x and x not in z and y not in z:
            need(moral_sep(n, arcs, x, y, z) == (y not in want), "oracle disagreement")
        if n <= 8 and (case["names"] + y) % 3 == 0:
            p = Dsep(np.zeros((1, n)), list(nodes), true_graph=g).cal_stats(x, y, *(() if case["coll"] == "default" else (coll(case["coll"], z),)))[0]
            need(p == (0.0 if y in want else 1.0), lambda: "the oracle test gives %r for %r, %r given %s %r" % (p, nodes[x], nodes[y], case["coll"], zs))
    need(snap(g) == s0, "the query changed the graph")
