"""Random and exhaustive small graphs of each class (built by edits, including overwrites and removals): every query compared with the recorded rows, and the graph compared before and after. Non-trivial: the graph has an edge."""
from harness.histories import *

BOUND = "at most 6 nodes"
nontrivial = lambda c: bool(c["edges"])


def cases(rng, tier):
    for kind in CLS:
        pool = {"Graph": [None, (T, A), (A, T), (T, T), (A, A), (C, C), (C, A), (T, C)], "DiGraph": [None, (T, A), "rev"], "PDAG": [None, (T, A), (A, T), (T, T), (A, A)]}[kind]
        for n in (0, 1, 2, 3):
            prs = list(itertools.combinations(range(n), 2))
            for st in itertools.product(pool, repeat=len(prs)):
                if n == 3 and kind == "Graph" and rng.random() < .6:
                    continue
                es = [[v, u, T, A] if s == "rev" else [u, v, *s] for (u, v), s in zip(prs, st) if s]
                yield {"kind": "small", "cls": kind, "names": rng.randrange(5), "n": n, "edges": es, "rev": rng.random() < .5}
        for _ in range(60 if tier == "quick" else 1500):
            n = rng.randrange(4, 7)
            es = []
            for u, v in itertools.combinations(range(n), 2):
                s = rng.choice(pool)
                if s:
                    es.append([v, u, T, A] if s == "rev" else [u, v, *s])
            rng.shuffle(es)
            yield {"kind": "random", "cls": kind, "names": rng.randrange(5), "n": n, "edges": es, "rev": rng.random() < .5, "drop": rng.random() < .3}


def check(case):
    nodes = names(case["names"], case["n"])
    g = CLS[case["cls"]](nodes)
    es = list(case["edges"])
    M = {}
    for u, v, mu, mv in (reversed(es) if case["rev"] else es):
        g.add_edge(Edge(nodes[u], nodes[v], MK[mu], MK[mv]))
        M[(nodes[u], nodes[v])], M[(nodes[v], nodes[u])] = mv, mu
    order = list(nodes)
    if case.get("drop"):
        g.remove_node(nodes[1])
        order.remove(nodes[1])
        M = {p: m for p, m in M.items() if nodes[1] not in p}
        g.add_node(nodes[1])
        order.append(nodes[1])
    s0 = snap(g)
    idx = {u: i for i, u in enumerate(order)}
    n = len(order)
    want_edges = [(u, v, M[(v, u)], M[(u, v)]) for i, u in enumerate(order) for v in order[i + 1:] if (u, v) in M]
    got = [(e.node_u, e.node_v, int(e.mark_u), int(e.mark_v)) for e in g.edges]
    need(got == want_edges, lambda: "edge listing %r, expected %r" % (got, want_edges))
    need(g.number_of_edges() == len(want_edges), lambda: "number_of_edges %r, %d edges" % (g.number_of_edges(), len(want_edges)))
    need(g.number_of_nodes() == n, lambda: "number_of_nodes %r" % g.number_of_nodes())
    need(list(g.nodes) == order, lambda: "nodes %r, expected %r" % (list(g.nodes), order))
    for u in order:
        nb = list(g.get_neighbours(u))
        need(len(set(nb)) == len(nb) and set(nb) == {b for a, b in M if a == u}, lambda: "neighbours of %r: %r" % (u, nb))
        for v in order:
            c = (u, v) in M
            mk = M.get((u, v))
            rv = M.get((v, u))
            need(bool(g.is_connected(u, v)) == c, lambda: "is_connected(%r, %r)" % (u, v))
            e = g.get_edge(u, v)
            need((e is None) == (not c), lambda: "get_edge(%r, %r) is %r" % (u, v, e))
            if c:
                need((e.node_u, e.node_v, int(e.mark_u), int(e.mark_v)) == (u, v, rv, mk), lambda: "get_edge(%r, %r) is %r" % (u, v, e))
            for nm, w in [("is_arrow", c and mk == A), ("is_tail", c and mk == T), ("is_circle", c and mk == C),
                          ("is_fully_directed", c and mk == A and rv == T), ("is_fully_undirected", c and mk == T and rv == T)]:
                r = getattr(g, nm)(u, v)
                need(bool(r) == bool(w), lambda: "%s(%r, %r) is %r, marks %r %r" % (nm, u, v, r, rv, mk))
    m = g.to_numpy()
    mt = g.to_numpy(transpose=True)
    need(m.shape == (n, n) and mt.shape == (n, n), lambda: "matrix shape %r" % (m.shape,))
    for u in order:
        for v in order:
            w = M.get((v, u), 0)
            need(m[idx[u], idx[v]] == w and mt[idx[v], idx[u]] == w, lambda: "matrix at row %r column %r is %r, expected %r" % (u, v, m[idx[u], idx[v]], w))
    df = g.to_dataframe()
    need(list(df.index) == order and list(df.columns) == order and (df.to_numpy() == m).all(), "data frame differs from the matrix")
    for q in (lambda: g.is_connected("?", "?"), lambda: g.get_edge("?", "!"), lambda: g.is_arrow("?", "?"), lambda: g.is_fully_directed("?", "?"), lambda: list(g.get_neighbours("?"))) + \
            ((lambda: g.is_connected(order[0], "?"), lambda: g.is_connected("?", order[0]), lambda: g.is_tail(order[0], "?")) if order else ()):
        try:
            q()
        except (AssertionError, KeyError):
            continue
        raise Fail("a query naming a missing node was not refused")
    need(snap(g) == s0, lambda: "queries changed the graph: %r -> %r" % (s0, snap(g)))
