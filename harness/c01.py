"""Edit histories (2-operation histories over 3 nodes, then random histories of 3-21 operations over up to 12 nodes of mixed name kinds, on Graph, DiGraph and PDAG); after every operation the recorded state is inspected. Non-trivial: at least two operations."""
from harness.histories import *

cases = hist_cases
BOUND = "histories of at most 21 operations, at most 12 nodes"
nontrivial = lambda c: len(c["ops"]) > 1


def check(case):
    ns = case["nodes"]
    if ns is not None and len(set(ns)) != len(ns):
        try:
            init(case)
        except AssertionError:
            return
        raise Fail("creating a graph from %r was not refused" % (ns,))
    g, _ = init(case)
    for i, op in enumerate([["create"]] + case["ops"]):
        if i:
            real_apply(g, op)
        m = inv(g)
        need(m is None, lambda: "after operation %d %r: %s" % (i, op, m))
