"""All PDAGs on at most 4 nodes (sampled 70% in quick), Meek patterns, random PDAGs on 5-6 nodes; every consistent extension is enumerated and must stay one after each rule and after full propagation; after propagation no pattern may be left. Non-trivial: has an undirected edge."""
from harness.pdagcases import *

BOUND = "at most 6 nodes"
nontrivial = lambda c: bool(c["und"])
cases = pdag_cases


def applicable(n, arcs, und):
    arcs = set(arcs)
    und = set(und) | {(v, u) for u, v in und}
    adj = arcs | {(v, u) for u, v in arcs} | und
    for a, b in und:
        o = [w for w in range(n) if w not in (a, b)]
        for w in o:
            if (w, a) in arcs and (w, b) not in adj:
                return "rule 1 at %d->%d-%d" % (w, a, b)
            if (a, w) in arcs and (w, b) in arcs:
                return "rule 2 at %d->%d->%d" % (a, w, b)
        for v, x in itertools.permutations(o, 2):
            if (a, v) in und and (a, x) in und and (v, b) in arcs and (x, b) in arcs and (v, x) not in adj:
                return "rule 3 at %d-%d" % (a, b)
            if (v, x) in arcs and (x, b) in arcs and (v, a) in und and (x, a) in adj and (v, b) not in adj:
                return "rule 4 at %d-%d" % (a, b)
    return None


def check(case):
    n = case["n"]
    arcs, und = [tuple(e) for e in case["arcs"]], [tuple(e) for e in case["und"]]
    exts = extensions(n, arcs, und)
    nodes = names(case["names"], n)
    for rule in ("rule1", "rule2", "rule3", "rule4", "orient_by_meek_rules"):
        g = mk_pdag(nodes, arcs, und)
        skel = set(marks_of(g))
        getattr(g, rule)()
        a2, u2, other = read_pdag(g)
        need(not other, lambda: "%s left marks %r" % (rule, other))
        need(set(marks_of(g)) == skel, rule + " changed adjacencies")
        vs = vstructs_pdag(n, a2, u2)
        for d in exts:
            bad = [e for e in a2 if e not in d]
            need(not bad, lambda: "%s directed %r; the consistent acyclic graph %r has it the other way" % (rule, bad, sorted(d)))
            need(vstructs(n, d) <= vs, "collider lost")
        if rule == "orient_by_meek_rules":
            left = applicable(n, a2, u2)
            need(left is None, lambda: "after propagation %s is still applicable" % left)
