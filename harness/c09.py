"""All DAGs on at most 4 nodes, a sample of the 29281 DAGs on 5 nodes, random DAGs on 6 nodes and the DAGs whose essential graph needs rules 3 and 4; the Markov equivalence class is enumerated by brute force. Non-trivial: has an edge."""
from harness.common import *

BOUND = "at most 6 nodes (8 for the nearly complete ones)"
nontrivial = lambda c: bool(c["arcs"])


def cases(rng, tier):
    def mk(kind, n, arcs):
        a = [list(x) for x in arcs]
        rng.shuffle(a)
        return {"kind": kind, "n": n, "arcs": a, "names": rng.randrange(5)}
    for n in (0, 1, 2, 3, 4):
        for arcs in all_dags(n):
            yield mk("all", n, arcs)
    fixed = [(6, [(0, 3), (0, 4), (1, 0), (1, 2), (1, 3), (1, 4), (3, 2), (3, 4), (5, 0)]),
             (4, [(0, 1), (0, 2), (0, 3), (1, 3), (2, 3)]), (5, [(4, 0), (0, 1), (1, 2), (0, 3), (3, 2), (1, 3)])]
    for n, arcs in fixed:
        for _ in range(4):
            p = list(range(n))
            rng.shuffle(p)
            yield mk("meek", n, [(p[a], p[b]) for a, b in arcs])
    for i in range(4 if tier == "quick" else 20):     # pairs that only a large set separates
        n = (7, 8)[i % 2]
        o = rng.sample(range(n), n)
        drop = {(o[0], o[-1])} | ({tuple(sorted(rng.sample(range(n), 2), key=o.index))} if i > 1 else set())
        yield mk("dense", n, [e for e in itertools.combinations(o, 2) if e not in drop])
    for i in range(350 if tier == "quick" else 12000):
        n = rng.choice((5, 5, 6)) if tier == "quick" else rng.choice((5, 6, 6))
        yield mk("random", n, rand_dag(rng, n, rng.choice((.3, .5, .7))))


def check(case):
    from cdmir.graph.dag2cpdag import dag2cpdag
    n, arcs = case["n"], [tuple(a) for a in case["arcs"]]
    nodes = names(case["names"], n)
    g = mk_digraph(nodes, arcs)
    s0 = snap(g)
    p = dag2cpdag(g)
    need(snap(g) == s0, "the input graph was modified")
    need(list(p.node_list) == list(nodes), lambda: "nodes %r" % (p.node_list,))
    a, u, other = read_pdag(p)
    need(not other, lambda: "marks %r" % (other,))
    skel = {(min(e), max(e)) for e in arcs}
    need({(min(e), max(e)) for e in a + u} == skel, lambda: "adjacencies %r, expected %r" % (sorted(a + u), sorted(skel)))
    for x, c, y in vstructs(n, arcs):
        need((x, c) in a and (y, c) in a, lambda: "collider %d->%d<-%d is not directed: %r" % (x, c, y, a))
    for d in mec(n, arcs) if n <= 6 else ():
        bad = [e for e in a if e not in d]
        need(not bad, lambda: "directs %r, but the equivalent graph %r has it the other way" % (bad, sorted(d)))
