"""Edit histories over graphs, with an independent model of what each edit must do (used by C01, C02, C04)."""
from harness.common import *

CLS = {"Graph": Graph, "DiGraph": DiGraph, "PDAG": PDAG}
LEGAL = {"Graph": None, "DiGraph": ([T], [A]), "PDAG": ([T, A], [T, A])}
MK = {T: Mark.Tail, A: Mark.Arrow, C: Mark.Circle, 0: Mark.Null}


class Model:
    def __init__(self, kind, nodes):
        self.kind, self.nodes, self.e = kind, list(nodes), {}

    def snap(self):
        adj = {u: {} for u in self.nodes}
        for (u, v), m in self.e.items():
            adj[u][v] = m
        return list(self.nodes), set(self.nodes), adj

    def legal(self, mu, mv):
        l = LEGAL[self.kind]
        return l is None or (mu in l[0] and mv in l[1])

    def add_edge(self, u, v, mu, mv, ow):
        """True when done, False when it must be refused"""
        if not self.legal(mu, mv) or u not in self.nodes or v not in self.nodes:
            return False
        if not ow and (u, v) in self.e:
            return False
        self.e[(u, v)], self.e[(v, u)] = mv, mu
        return True

    def apply(self, op):
        """-> number of parts applied, refused?"""
        k = op[0]
        if k == "add_node":
            if op[1] not in self.nodes:
                self.nodes.append(op[1])
        elif k == "add_nodes":
            for u in op[1]:
                if u not in self.nodes:
                    self.nodes.append(u)
        elif k == "add_edge":
            return self.add_edge(*op[1:])
        elif k == "add_edges":
            for e in op[1]:
                if not self.add_edge(*e, op[2]):
                    return False
        elif k == "remove_edge":
            if op[1] not in self.nodes or op[2] not in self.nodes:
                return False
            self.e.pop((op[1], op[2]), None)
            self.e.pop((op[2], op[1]), None)
        elif k == "remove_node":
            return self.rm(op[1])
        elif k == "remove_nodes":
            for u in op[1]:
                if not self.rm(u):
                    return False
        elif k == "complete":
            for u, v in itertools.combinations(list(self.nodes), 2):
                if not self.add_edge(u, v, T, T, False):
                    return False
        elif k == "query":
            pass
        return True

    def rm(self, u):
        if u not in self.nodes:
            return False
        self.nodes.remove(u)
        self.e = {p: m for p, m in self.e.items() if u not in p}
        return True


def real_apply(g, op):
    """-> True done, False refused with an assertion error"""
    k = op[0]
    E = lambda u, v, mu, mv: Edge(u, v, MK[mu], MK[mv])
    try:
        if k == "add_node":
            g.add_node(op[1])
        elif k == "add_nodes":
            g.add_nodes(iter(op[1]) if len(op) > 2 else op[1])
        elif k == "add_edge":
            e = E(*op[1:5])
            g.add_edge(e, overwrite=True) if op[5] else g.add_edge(e)
        elif k == "add_edges":
            l = [E(*e) for e in op[1]]
            g.add_edges(iter(l), overwrite=op[2]) if op[2] else g.add_edges(l)
        elif k == "remove_edge":
            g.remove_edge(op[1], op[2])
        elif k == "remove_node":
            g.remove_node(op[1])
        elif k == "remove_nodes":
            g.remove_nodes_from(list(op[1]))
        elif k == "complete":
            g.create_complete_undirected_graph()
        elif k == "query":
            list(g.edges), list(g.nodes), g.to_numpy(), g.number_of_edges(), g.number_of_nodes()
            for u in list(g.node_list):
                list(g.get_neighbours(u))
                for v in g.node_list:
                    g.is_connected(u, v), g.is_arrow(u, v), g.is_tail(u, v), g.get_edge(u, v), g.is_circle(u, v), g.is_fully_directed(u, v), g.is_fully_undirected(u, v)
        return True
    except AssertionError:
        return False


def init(case):
    kind, nodes = case["cls"], case["nodes"]
    how = case.get("init", "list")
    src = None if nodes is None else {"list": list, "tuple": tuple, "iter": iter, "dict": dict.fromkeys, "set": set}[how](nodes)
    g = CLS[kind]() if nodes is None else CLS[kind](src)
    m = Model(kind, nodes or [])
    if how == "set":
        m.nodes = list(g.node_list)
    return g, m


def hist_cases(rng, tier):
    """short exhaustive histories over 3 nodes, then random long ones over up to 12 nodes of mixed kinds"""
    marks = {"Graph": [(T, A), (A, T), (T, T), (A, A), (C, C), (C, A), (0, 0), (0, A), (T, 0)], "DiGraph": [(T, A), (A, T), (T, T), (A, A), (0, A), (T, 0)], "PDAG": [(T, A), (A, T), (T, T), (A, A), (C, A), (T, C), (0, T), (A, 0)]}
    for kind in CLS:
        ops = []
        for u, v in itertools.permutations(["a", "b", "c"], 2):
            for mu, mv in marks[kind][:3]:
                for ow in (False, True):
                    ops.append(["add_edge", u, v, mu, mv, ow])
            ops.append(["remove_edge", u, v])
        ops += [["remove_node", u] for u in "abc"] + [["add_node", u] for u in "abcd"]
        for o1 in ops:
            for o2 in (ops if tier == "thorough" else rng.sample(ops, 14)):
                yield {"kind": "short", "cls": kind, "nodes": ["a", "b"] if rng.random() < .3 else ["a", "b", "c"], "ops": [o1, o2]}
        for how in ("list", "tuple", "iter", "dict", "set"):
            for ns in ([], ["a"], ["b", "a"], ["a", "b", "a"], [3, 1, 2, 0]):
                if how in ("dict", "set") and len(set(ns)) < len(ns):
                    continue
                yield {"kind": "init", "cls": kind, "nodes": ns, "init": how, "ops": [["add_node", "n"], ["complete"] if kind == "PDAG" else ["query"]]}
        yield {"kind": "init", "cls": kind, "nodes": None, "ops": [["add_node", 1], ["add_node", 2], ["add_edge", 1, 2, T, A, False]]}
    n_rand = 9000 if tier == "quick" else 120000
    for i in range(n_rand):
        kind = rng.choice(list(CLS))
        big = rng.random() < .1
        pool = names(rng.randrange(5), 12 if big else 7)
        n = rng.randrange(6, 12) if big else rng.randrange(0, 6)
        nodes = pool[:n]
        ops = []
        for _ in range(rng.randrange(3, 22)):
            k = rng.random()
            mu, mv = rng.choice(marks[kind]) if rng.random() < .4 else rng.choice(marks[kind][:1] if kind == "DiGraph" else marks[kind][:4])
            u, v = rng.sample(pool, 2)
            if k < .45:
                ops.append(["add_edge", u, v, mu, mv, rng.random() < .4])
            elif k < .57:
                ops.append(["remove_edge", u, v])
            elif k < .67:
                ops.append(["remove_node", u])
            elif k < .77:
                ops.append(["add_node", u])
            elif k < .83:
                ops.append(["add_nodes", rng.sample(pool, 3)] + ([1] if rng.random() < .5 else []))
            elif k < .88:
                ops.append(["remove_nodes", rng.sample(pool, 2)])
            elif k < .95:
                es = []
                for _ in range(rng.randrange(0, 4)):
                    a, b = rng.sample(pool, 2)
                    m = rng.choice(marks[kind]) if rng.random() < .2 else marks[kind][0]
                    es.append([a, b, m[0], m[1]])
                ops.append(["add_edges", es, rng.random() < .5])
            elif k < .98 or kind != "PDAG":
                ops.append(["query"])
            else:
                ops.append(["complete"])
        yield {"kind": "random", "cls": kind, "nodes": nodes, "ops": ops}
