"""Edit histories as in C01, each operation compared with an independent model of the edit (effect, frame, node order, refusal leaves the graph unchanged). Non-trivial: at least two operations."""
from harness.histories import *

cases = hist_cases
BOUND = "histories of at most 21 operations, at most 12 nodes"
nontrivial = lambda c: len(c["ops"]) > 1


def check(case):
    ns = case["nodes"]
    if ns is not None and len(set(ns)) != len(ns):
        return
    g, m = init(case)
    if case.get("init") != "set":
        need(list(g.node_list) == m.nodes, lambda: "created from %r, node order is %r" % (ns, g.node_list))
    for i, op in enumerate(case["ops"]):
        before = snap(g)
        ok = m.apply(op)
        got = real_apply(g, op)
        need(got == ok, lambda: "operation %d %r: %s, expected it to be %s" % (i, op, "done" if got else "refused", "done" if ok else "refused"))
        after = snap(g)
        want = m.snap()
        if not ok and op[0] in ("add_edge", "remove_edge", "remove_node"):
            need(after == before, lambda: "refused operation %d %r changed the graph: %r -> %r" % (i, op, before, after))
        need(after == want, lambda: "operation %d %r: graph is %r, expected %r" % (i, op, after, want))
