"""Random symmetric test oracles (every acceptance density, p-values on, above and below alpha) and d-separation oracles of random DAGs, on 0 to 6 variables, for both searches; the conditions of the property are checked by enumerating every conditioning set. Non-trivial: at least three variables."""
from harness.common import *

BOUND = "at most 6 variables"
nontrivial = lambda c: c["n"] >= 3


class Oracle:
    def __init__(self, nodes, case):
        self.pos = {v: i for i, v in enumerate(nodes)}
        self.case, self.memo = case, {}

    def p(self, u, v, z):
        key = (frozenset((u, v)), frozenset(z))
        if key not in self.memo:
            c = self.case
            if c["kind"] == "dsep":
                val = 1.0 if v not in active_reach(c["n"], [tuple(a) for a in c["arcs"]], u, z) else 0.0
            else:
                r = rng_of(c["seed"], sorted(key[0]), sorted(key[1]))
                val = r.choice((c["alpha"], c["alpha"] + .01, .99, c["alpha"])) if r.random() < c["dens"] else r.choice((0.0, c["alpha"] - .001, c["alpha"] / 2))
            self.memo[key] = val
        return self.memo[key]

    def test(self, x, y, z=None):
        z = [] if z is None else list(z)
        return self.p(self.pos[x], self.pos[y], [self.pos[q] for q in z]), "statistic"


def cases(rng, tier):
    for n in range(0, 3):
        for fast in (0, 1):
            yield {"kind": "random", "n": n, "dens": .5, "alpha": .05, "seed": n, "fast": fast, "names": 1}
    for i in range(900 if tier == "quick" else 20000):
        n = rng.choice((3, 4, 4, 5, 5, 6))
        c = {"n": n, "alpha": rng.choice((.01, .05, .3)), "fast": rng.randrange(2), "names": rng.randrange(5), "verbose": rng.random() < .2}
        if rng.random() < .3:
            c.update(kind="dsep", arcs=rand_dag(rng, n, rng.choice((.3, .5, .8))))
        else:
            c.update(kind="random", seed=rng.randrange(10 ** 9), dens=rng.choice((.03, .1, .25, .5)))
        yield c


def check(case):
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    n = case["n"]
    nodes = names(case["names"], n)
    o = Oracle(nodes, case)
    given = list(nodes)
    g, sep = (fast_adjacency_search if case["fast"] else adjacency_search)(o, given, case["alpha"], verbose=case.get("verbose", False))
    need(given == list(nodes), "the list of names was modified")
    need(list(g.node_list) == list(nodes), lambda: "nodes %r" % (g.node_list,))
    need(not inv(g), lambda: inv(g))
    arcs, und, other = read_pdag(g)
    need(not arcs and not other, lambda: "edges that are not undirected: %r %r" % (arcs, other))
    adj = {frozenset(e) for e in und}
    nb = {u: {v for v in range(n) if frozenset((u, v)) in adj} for u in range(n)}
    acc = lambda u, v, z: o.p(u, v, z) >= case["alpha"]
    subsets = lambda s: (z for k in range(len(s) + 1) for z in itertools.combinations(sorted(s), k))
    for u, v in itertools.permutations(range(n), 2):
        rest = set(range(n)) - {u, v}
        if frozenset((u, v)) in adj:
            for z in subsets(nb[u] - {v}):
                need(not acc(u, v, z), lambda: "%d-%d is kept although independent given %r, neighbours of %d" % (u, v, z, u))
        else:
            need(any(acc(u, v, z) for z in subsets(rest)), lambda: "%d-%d was dropped, but no conditioning set was accepted" % (u, v))
        s = {o.pos[w] for w in sep[nodes[u], nodes[v]]}
        need(s == {o.pos[w] for w in sep[nodes[v], nodes[u]]}, lambda: "separators of %d-%d differ between the orders" % (u, v))
        need(not s or frozenset((u, v)) not in adj, lambda: "separator %r recorded for the adjacent pair %d-%d" % (s, u, v))
        need(u not in s and v not in s, lambda: "separator %r holds an end of %d-%d" % (s, u, v))
        for w in s:
            need(any(w in z and acc(u, v, z) for z in subsets(rest)), lambda: "%d in the separator of %d-%d was in no accepted set" % (w, u, v))
