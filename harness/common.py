"""Shared pieces of the concrete harnesses; runs on the real code (CDMIR_REPO, default /repo)."""
import itertools
import os
import random
import sys
import warnings

REPO = os.environ.get("CDMIR_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

from cdmir.graph import Graph, DiGraph, PDAG, Edge, Mark  # noqa: E402

T, A, C = -1, 1, 2


class Fail(Exception):
    """the property is broken on this case; key identifies a known finding"""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def need(cond, msg, key=None):
    if not cond:
        raise Fail(msg if isinstance(msg, str) else msg(), key)


# ---------------------------------------------------------------- node names
NAMES = [list(range(14)), list("badcfehgjilknm"), [3, 1, 0, 2, 7, 6, 5, 4, 9, 8, 12, 13, 11, 10],
         [10, "x", 2.5, "0", 0, "y", -1, "z", 3.5, "10", 7, "q", 100, "w"],
         ["X1", "X0", "X3", "X2", "X10", "X5", "X7", "X6", "X9", "X4", "X8", "X12", "X11", "X13"]]


def names(k, n):
    return NAMES[k % len(NAMES)][:n]


def mk_digraph(nodes, arcs, cls=None):
    g = (cls or DiGraph)(list(nodes))
    for u, v in arcs:
        g.add_edge(Edge(nodes[u], nodes[v], Mark.Tail, Mark.Arrow))
    return g


def mk_pdag(nodes, arcs, und, cls=None):
    g = (cls or PDAG)(list(nodes))
    for u, v in arcs:
        g.add_edge(Edge(nodes[u], nodes[v], Mark.Tail, Mark.Arrow))
    for u, v in und:
        g.add_edge(Edge(nodes[u], nodes[v], Mark.Tail, Mark.Tail))
    return g


def snap(g):
    """full independent snapshot of a graph's state (marks as ints)"""
    return (list(g.node_list), set(g.node_set), {u: {v: int(m) for v, m in g._adj[u].items()} for u in g._adj})


def inv(g):
    """representation invariant; returns a message or None"""
    if len(set(g.node_list)) != len(g.node_list):
        return "duplicate nodes %r" % (g.node_list,)
    if set(g.node_list) != set(g.node_set):
        return "node list %r and node set %r differ" % (g.node_list, g.node_set)
    if set(g._adj) != set(g.node_set):
        return "adjacency rows %r for nodes %r" % (sorted(map(str, g._adj)), g.node_list)
    for u in g._adj:
        for v in g._adj[u]:
            if v not in g._adj:
                return "edge %r-%r to a node that is not in the graph" % (u, v)
            if u not in g._adj[v]:
                return "edge %r-%r recorded at one end only" % (u, v)
    return None


def marks_of(g):
    """{(i, j): mark at j's end} over node positions, read from the recorded rows"""
    pos = {v: i for i, v in enumerate(g.node_list)}
    return {(pos[u], pos[v]): int(m) for u in g._adj for v, m in g._adj[u].items()}


# ---------------------------------------------------------------- DAG / PDAG enumeration and oracles (positions 0..n-1)
def all_dags(n):
    pairs = list(itertools.combinations(range(n), 2))
    for st in itertools.product((0, 1, 2), repeat=len(pairs)):
        arcs = [(u, v) if s == 1 else (v, u) for (u, v), s in zip(pairs, st) if s]
        if acyclic(n, arcs):
            yield arcs


def all_digraphs(n):
    pairs = list(itertools.combinations(range(n), 2))
    for st in itertools.product((0, 1, 2), repeat=len(pairs)):
        yield [(u, v) if s == 1 else (v, u) for (u, v), s in zip(pairs, st) if s]


def all_pdags(n):
    pairs = list(itertools.combinations(range(n), 2))
    for st in itertools.product((0, 1, 2, 3), repeat=len(pairs)):
        yield ([(u, v) if s == 1 else (v, u) for (u, v), s in zip(pairs, st) if s in (1, 2)],
               [p for p, s in zip(pairs, st) if s == 3])


def rand_dag(rng, n, p):
    order = list(range(n))
    rng.shuffle(order)
    return [(order[i], order[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < p]


def rand_digraph(rng, n, p):
    out = []
    for u, v in itertools.combinations(range(n), 2):
        if rng.random() < p:
            out.append((u, v) if rng.random() < .5 else (v, u))
    return out


def acyclic(n, arcs):
    ch = {u: [] for u in range(n)}
    deg = [0] * n
    for u, v in arcs:
        ch[u].append(v)
        deg[v] += 1
    st = [u for u in range(n) if deg[u] == 0]
    k = 0
    while st:
        u = st.pop()
        k += 1
        for v in ch[u]:
            deg[v] -= 1
            if deg[v] == 0:
                st.append(v)
    return k == n


def vstructs(n, arcs):
    arcs = set(arcs)
    adj = arcs | {(v, u) for u, v in arcs}
    return {(min(a, b), c, max(a, b)) for a, c in arcs for b, d in arcs if c == d and a != b and (a, b) not in adj}


def mec(n, arcs):
    """every DAG with the same adjacencies and unshielded colliders"""
    skel = sorted({(min(e), max(e)) for e in arcs})
    vs = vstructs(n, arcs)
    out = []
    for st in itertools.product((0, 1), repeat=len(skel)):
        b = [(u, v) if s else (v, u) for (u, v), s in zip(skel, st)]
        if acyclic(n, b) and vstructs(n, b) == vs:
            out.append(frozenset(b))
    return out


def extensions(n, arcs, und):
    """consistent extensions of a PDAG: acyclic, keep the arcs, no unshielded collider that the PDAG does not show"""
    base = vstructs_pdag(n, arcs, und)
    out = []
    for st in itertools.product((0, 1), repeat=len(und)):
        b = list(arcs) + [(u, v) if s else (v, u) for (u, v), s in zip(und, st)]
        if acyclic(n, b) and vstructs(n, b) == base:
            out.append(frozenset(b))
    return out


def vstructs_pdag(n, arcs, und):
    arcs = set(arcs)
    adj = arcs | {(v, u) for u, v in arcs} | set(und) | {(v, u) for u, v in und}
    return {(min(a, b), c, max(a, b)) for a, c in arcs for b, d in arcs if c == d and a != b and (a, b) not in adj}


def read_pdag(g):
    """(arcs, undirected) over positions"""
    m = marks_of(g)
    arcs, und, other = [], [], []
    for (u, v), x in m.items():
        y = m.get((v, u))
        if x == A and y == T:
            arcs.append((u, v))
        elif x == T and y == T:
            if u < v:
                und.append((u, v))
        elif not (x == T and y == A):
            other.append((u, v, x, y))
    return sorted(arcs), sorted(und), other


def active_reach(n, arcs, x, z):
    """positions y reached from x by a trail that is active given z: independent definition by walking (node, came-from) states"""
    z = set(z)
    pa = {i: [u for u, v in arcs if v == i] for i in range(n)}
    ch = {i: [v for u, v in arcs if u == i] for i in range(n)}
    anc = set(z)
    todo = list(z)
    while todo:
        y = todo.pop()
        for p in pa[y]:
            if p not in anc:
                anc.add(p)
                todo.append(p)
    seen, todo = set(), [(x, None)]
    out = set()
    while todo:
        y, frm = todo.pop()
        if (y, frm) in seen:
            continue
        seen.add((y, frm))
        if y not in z:
            out.add(y)
        # arriving: frm None start, 'p' from a parent (edge into y), 'c' from a child
        for nx, kind in [(p, "c") for p in pa[y]] + [(c, "p") for c in ch[y]]:
            # kind is how nx is entered: moving to a parent enters it from its child
            if frm is None:
                ok = y not in z
            else:
                collider = frm == "p" and kind == "c"
                ok = (y in anc) if collider else (y not in z)
            if ok:
                todo.append((nx, kind))
    return out


def rng_of(*key):
    return random.Random("|".join(map(str, key)))
