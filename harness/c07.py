"""All PDAGs on at most 4 nodes (sampled 70% in quick), the Meek patterns and their near-misses, random PDAGs on 5-6 nodes; each rule applied on its own, then rule0 with random symmetric separators (also on graphs with bidirected edges); effects compared edge by edge with the rule's pattern. Non-trivial: has an edge."""
from harness.pdagcases import *

BOUND = "at most 6 nodes"
nontrivial = lambda c: bool(c["arcs"] or c["und"])
cases = pdag_cases


def build(case, extra=()):
    nodes = names(case["names"], case["n"])
    g = mk_pdag(nodes, case["arcs"], case["und"])
    for u, v in extra:
        g.add_edge(Edge(nodes[u], nodes[v], Mark.Arrow, Mark.Arrow))
    return nodes, g


def check(case):
    n = case["n"]
    rng = rng_of(case["salt"])
    free = [p for p in itertools.combinations(range(n), 2) if list(p) not in case["arcs"] + case["und"] and [p[1], p[0]] not in case["arcs"] + case["und"]]
    bid = [p for p in free if rng.random() < .15]
    for rule in ("rule1", "rule2", "rule3", "rule4"):
        for ex in ((), bid) if bid else ((),):
            nodes, g = build(case, ex)
            before = marks_of(g)
            s0 = snap(g)
            r = getattr(g, rule)()
            after = marks_of(g)
            need(inv(g) is None, lambda: "%s: %s" % (rule, inv(g)))
            need(snap(g)[:2] == s0[:2], rule + " changed the nodes")
            need(set(after) == set(before), lambda: "%s changed adjacencies: %r" % (rule, sorted(set(before) ^ set(after))))
            need(bool(r) == (after != before), lambda: "%s reports %r, changes: %r" % (rule, r, [p for p in after if after[p] != before[p]]))
            con = lambda a, b: (a, b) in after
            D = lambda a, b: after.get((a, b)) == A and after.get((b, a)) == T
            U0 = lambda a, b: before.get((a, b)) == T and before.get((b, a)) == T
            for a, b in itertools.permutations(range(n), 2):
                if not con(a, b) or (after[(a, b)], after[(b, a)]) == (before[(a, b)], before[(b, a)]):
                    continue
                need(U0(a, b), lambda: "%s changed the edge %d-%d, which was not undirected" % (rule, a, b))
                need(D(a, b) or D(b, a), lambda: "%s left the edge %d-%d with marks %r" % (rule, a, b, (after[(b, a)], after[(a, b)])))
                if not D(a, b):
                    continue
                o = [w for w in range(n) if w not in (a, b)]
                ok = {"rule1": lambda: any(D(w, a) and not con(w, b) for w in o),
                      "rule2": lambda: any(D(a, w) and D(w, b) for w in o),
                      "rule3": lambda: any(U0(a, v) and U0(a, x) and D(v, b) and D(x, b) and not con(v, x) for v in o for x in o if v != x),
                      "rule4": lambda: any(D(u, v) and D(v, b) and U0(u, a) and con(v, a) and not con(u, b) for u in o for v in o if u != v)}[rule]()
                need(ok, lambda: "%s directed %d -> %d without its pattern" % (rule, a, b))
    # collider rule
    nodes, g = build(case, bid)
    before = marks_of(g)
    sep = {}
    for i, j in itertools.combinations(range(n), 2):
        s = {nodes[w] for w in range(n) if w not in (i, j) and rng.random() < .5}
        sep[(nodes[i], nodes[j])] = sep[(nodes[j], nodes[i])] = s
    keep = {k: set(v) for k, v in sep.items()}
    s0 = snap(g)
    g.rule0(sep)
    after = marks_of(g)
    need(sep == keep, "rule0 changed the separators")
    need(snap(g)[:2] == s0[:2], "rule0 changed the nodes")
    need(set(after) == set(before), lambda: "rule0 changed adjacencies: %r" % (sorted(set(before) ^ set(after)),))
    leg = set()
    for u, v in itertools.combinations(range(n), 2):
        if (u, v) in before:
            continue
        for w in range(n):
            if w not in (u, v) and (u, w) in before and (v, w) in before and nodes[w] not in sep[(nodes[u], nodes[v])]:
                leg |= {(u, w), (v, w)}
    for a, b in before:
        if (a, b) in leg and (b, a) not in leg:
            need(after[(a, b)] == A and after[(b, a)] == T, lambda: "rule0: leg %d -> %d has marks %r" % (a, b, (after[(b, a)], after[(a, b)])))
        elif (a, b) in leg:
            need(sorted((after[(a, b)], after[(b, a)])) == [T, A], lambda: "rule0: contested leg %d - %d has marks %r" % (a, b, (after[(b, a)], after[(a, b)])))
        elif (b, a) not in leg:
            need((after[(a, b)], after[(b, a)]) == (before[(a, b)], before[(b, a)]), lambda: "rule0 changed the edge %d - %d, which is no leg" % (a, b))
