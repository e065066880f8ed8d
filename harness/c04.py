"""Edit histories as in C01 with legal and illegal marks: after every operation the recorded marks must be legal for the class; parents, children and degrees of directed graphs compared with the recorded marks. Non-trivial: at least two operations."""
from harness.histories import *

BOUND = "histories of at most 21 operations, at most 12 nodes"
nontrivial = lambda c: len(c["ops"]) > 1


def cases(rng, tier):
    for kind in ("DiGraph", "PDAG"):
        for mu, mv in itertools.product((T, A, C, 0), repeat=2):
            for ow in (False, True):
                for pre in ([], [["add_edge", "a", "b", T, A, False]], [["add_edge", "b", "a", T, A, False]]):
                    yield {"kind": "marks", "cls": kind, "nodes": ["a", "b", "c"], "ops": pre + [["add_edge", "a", "b", mu, mv, ow]]}
                    yield {"kind": "marks", "cls": kind, "nodes": ["a", "b", "c"], "ops": pre + [["add_edges", [["b", "c", T, A], ["a", "b", mu, mv]], ow]]}
    for c in hist_cases(rng, tier):
        if c["cls"] != "Graph":
            yield c


def check(case):
    ns = case["nodes"]
    if ns is not None and len(set(ns)) != len(ns):
        return
    g, _ = init(case)
    kind = case["cls"]
    for i, op in enumerate(case["ops"]):
        before = snap(g)
        bad = op[0] == "add_edge" and not Model(kind, []).legal(op[3], op[4])
        done = real_apply(g, op)
        if bad:
            need(not done, lambda: "operation %d %r with an illegal mark was not refused" % (i, op))
            need(snap(g) == before, lambda: "refused operation %d %r changed the graph" % (i, op))
        adj = {u: {v: int(m) for v, m in r.items()} for u, r in g._adj.items()}
        for u in adj:
            for v, m in adj[u].items():
                o = adj.get(v, {}).get(u)
                if kind == "DiGraph":
                    need((m, o) in ((T, A), (A, T)), lambda: "after operation %d %r: edge %r-%r has marks %r %r" % (i, op, u, v, o, m))
                else:
                    need(m in (T, A), lambda: "after operation %d %r: edge %r-%r has mark %r" % (i, op, u, v, m))
        if kind == "DiGraph":
            for u in adj:
                pa = sorted((str(v) for v in adj if adj[v].get(u) == A))
                ch = sorted((str(v) for v in adj[u] if adj[u][v] == A))
                gp, gc = sorted(map(str, g.get_parents(u))), sorted(map(str, g.get_children(u)))
                need(gp == pa, lambda: "parents of %r: %r, recorded %r" % (u, gp, pa))
                need(gc == ch, lambda: "children of %r: %r, recorded %r" % (u, gc, ch))
                need(g.in_degree(u) == len(pa) and g.out_degree(u) == len(ch), lambda: "degrees of %r: in %r out %r" % (u, g.in_degree(u), g.out_degree(u)))
