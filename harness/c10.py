"""All PDAGs on at most 4 nodes that have a consistent extension, Meek patterns, random PDAGs on 5-6 nodes with one; extension existence by brute force. Non-trivial: has an extension and an undirected edge."""
from harness.pdagcases import *

BOUND = "at most 6 nodes"
cases = pdag_cases


def nontrivial(c):
    return bool(c["und"])


def check(case):
    from cdmir.graph.pdag2dag import pdag2dag
    n = case["n"]
    arcs, und = [tuple(e) for e in case["arcs"]], [tuple(e) for e in case["und"]]
    if not extensions(n, arcs, und):
        return
    nodes = names(case["names"], n)
    g = mk_pdag(nodes, arcs, und)
    s0 = snap(g)
    d = pdag2dag(g)
    need(snap(g) == s0, "the input graph was modified")
    need(type(d) is DiGraph, "not a directed graph")
    need(list(d.node_list) == list(nodes), lambda: "nodes %r" % (d.node_list,))
    a, u, other = read_pdag(d)
    need(not u and not other, lambda: "undirected edges %r %r" % (u, other))
    need({(min(e), max(e)) for e in a} == {(min(e), max(e)) for e in arcs + und}, lambda: "adjacencies differ: %r" % (a,))
    need(set(arcs) <= set(a), lambda: "directed edges %r not kept in %r" % (arcs, a))
    need(acyclic(n, a), lambda: "cyclic: %r" % (a,))
    need(vstructs(n, a) <= vstructs_pdag(n, arcs, und), lambda: "new unshielded collider in %r" % (a,))
