"""Contract of cdmir.graph.dag2cpdag.dag2cpdag."""
from contracts.base import *
from contracts.graph import Query, unchanged_nodes
from contracts.digraph import Trails, arc, parents, ranked, nd, UP, DOWN, TND, TNDS, def_set, an_closed, trail_steps
from contracts.pdag import DAG, RANK, agrees, pr, same_pairs, TSep

# ORD: a ranking of the input's nodes; DAG with RANK (contracts.pdag): an arbitrary directed acyclic graph
ORD = z3.Function("ord", Node, z3.IntSort())


def shows(g, a, b, w):
    """a -> w <- b with a, b different and not adjacent"""
    return z3.And(a != b, z3.Not(g.conn(a, b)), arc(g, a, w), arc(g, b, w))


def equivalent(g):
    """the arbitrary graph D is acyclic and has g's adjacencies and unshielded colliders"""
    a, b, w = nv("a", "b", "w")
    return z3.And(FA([a, b], z3.Implies(DAG(a, b), z3.And(RANK(a) < RANK(b), g.conn(a, b), g.conn(b, a))), [DAG(a, b)]),
                  FA([a, b], z3.Implies(g.conn(a, b), z3.Or(DAG(a, b), DAG(b, a))), [g.rec(a, b)]),
                  FA([a, b, w], z3.Implies(shows(g, a, b, w), z3.And(DAG(a, w), DAG(b, w))), [z3.MultiPattern(g.rec(a, w), g.rec(b, w))]),
                  FA([a, b, w], z3.Implies(z3.And(DAG(a, w), DAG(b, w), a != b, z3.Not(g.conn(a, b))), z3.And(arc(g, a, w), arc(g, b, w))), [z3.MultiPattern(DAG(a, w), DAG(b, w))]))


def separates(c, g, u, v):
    """the parents of the later one of two non-adjacent nodes separate them: instance of the least-set lemma with an explicit closed set"""
    key = (g.adj.get_id(), u.get_id(), v.get_id())
    cache = c.eng.__dict__.setdefault("candidates", {})
    if key not in cache:
        x = z3.Const(fresh_name("m"), Node)
        Z, C = fresh("Z", TNS), fresh("cert", TNDS)
        k = z3.Const(fresh_name("k"), sort(TND))
        n, up = T_get(k, 0, TND), T_get(k, 1, TND) == UP
        first = ORD(u) < ORD(v)
        X1 = z3.If(up, ORD(n) < ORD(v), n != v)
        X2 = z3.If(up, z3.Or(n == u, arc(g, n, u)), ORD(n) > ORD(u))
        cache[key] = (Z, C, [z3.Implies(first, Z == parents(c, g, v)), z3.Implies(z3.Not(first), Z == parents(c, g, u)),
                             z3.ForAll([k], C[k] == z3.If(first, X1, X2), patterns=[C[k]])], (g, u, v))
    Z, C, facts, _ = cache[key]
    parents(c, g, v), parents(c, g, u)     # their definition is known here too
    for f in facts:
        c.st.assume(f)
    t = Trails(c, g, u, Z)
    E = cache.setdefault(key + ("E",), def_set(c, TNode, lambda x: z3.If(ORD(u) < ORD(v), ORD(x) < ORD(v), ORD(x) < ORD(u)), "earlier"))
    x = z3.Const(fresh_name("m"), Node)
    c.st.assume(z3.ForAll([x], E[x] == z3.If(ORD(u) < ORD(v), ORD(x) < ORD(v), ORD(x) < ORD(u)), patterns=[E[x]]))
    t.least_anc(E)
    t.least_reach(C)
    return Z, t


def candidate(c, g, u, v):
    """the lemmas about it"""
    Z, t = separates(c, g, u, v)
    C = c.eng.candidates[(g.adj.get_id(), u.get_id(), v.get_id())][1]
    E = c.eng.candidates[(g.adj.get_id(), u.get_id(), v.get_id(), "E")]
    on = z3.Not(g.conn(u, v))
    less = sdel(sdel(g.N, u), v)
    out = [("the pair differs", z3.And(u != v, g.N[u], g.N[v])),
           ("the candidate avoids the pair", z3.Implies(on, z3.And(z3.Not(Z[u]), z3.Not(Z[v])))),
           ("the candidate consists of other nodes", z3.Implies(on, ssub(Z, less, TNode))),
           ("there are two fewer others", card(less, TNode) == card(g.N, TNode) - 2),
           ("the candidate is no larger", z3.Implies(on, card(Z, TNode) <= card(less, TNode))),
           ("earlier nodes are closed under parents", an_closed(g, Z, E)),
           ("ancestors of the candidate are earlier", ssub(t.A, E, TNode)),
           ("the certificate holds the start", z3.Implies(on, C[nd(u, UP)]))]
    for i, f in enumerate(trail_steps(g, Z, t.A, C).children()):
        out.append(("the certificate is closed under step %d" % (i + 1), z3.Implies(on, f)))
    return out + [("the candidate separates", z3.Implies(on, z3.Not(t.reaches(v))))]


@contract("cdmir.graph.dag2cpdag.dag2cpdag", cost=9, parts=4)
class _(Contract):
    params = {"dag": "DiGraph"}
    dict_value_ty = TNS

    def requires(self, c):
        g = GV(c, "dag")
        return g.inv() + [("the input has no directed cycle", ranked(g, lambda x: ORD(x)))]

    def result(self, eng, st, c):
        from pyver.driver import fresh_object
        return fresh_object(eng, st, "PDAG")

    def ensures(self, c):
        d = GV(c, "dag", c.old)
        if not isinstance(c.result, ObjRef) or c.st.objs[c.result.oid].cls != "PDAG":
            return [("a partially directed graph is returned", z3.BoolVal(False))]
        g = GV(c, c.result)
        a, b, w = nv("a", "b", "w")
        return g.inv() + [("same nodes in the same order", z3.And(g.N == d.N, g.seq_eq(d))),
                          ("same adjacencies", FA([a, b], z3.Implies(d.N[a], g.rec(a, b) == d.rec(a, b)), [g.rec(a, b)])),
                          ("every edge is directed or undirected", FA([a, b], z3.Implies(g.conn(a, b), z3.Or(g.und(a, b), g.dir(a, b), g.dir(b, a))), [g.rec(a, b)])),
                          ("edges of unshielded colliders are directed as in the input", FA([a, b, w], z3.Implies(shows(d, a, b, w), z3.And(g.dir(a, w), g.dir(b, w))), [z3.MultiPattern(g.rec(a, w), g.rec(b, w)), z3.MultiPattern(d.rec(a, w), d.rec(b, w))])),
                          ("every directed edge has that direction in every equivalent acyclic graph", z3.Implies(equivalent(d), FA([a, b], z3.Implies(g.dir(a, b), DAG(a, b)), [g.rec(a, b)])))]

    def graph(self, c):
        return GV(c, c.local("pdag"))

    def recorded(self, c):
        """what the recorded separators say about middle nodes"""
        d, s = GV(c, "dag", c.old), c.lz("sep_set", TSep)
        a, b, w = nv("a", "b", "w")
        S = lambda a, b: z3.Select(D_val(s, TSep), pr(a, b))
        return [("separators are recorded for every ordered pair", FA([a, b], D_dom(s, TSep)[pr(a, b)] == z3.And(d.N[a], d.N[b], a != b), [D_dom(s, TSep)[pr(a, b)]])),
                ("separators are the same in both orders", FA([a, b, w], z3.Implies(z3.And(d.N[a], d.N[b], a != b), S(a, b)[w] == S(b, a)[w]), [S(a, b)[w]])),
                ("no separator holds the middle node of a collider", FA([a, b, w], z3.Implies(z3.And(d.N[a], d.N[b], a != b, S(a, b)[w]), z3.Not(z3.And(arc(d, a, w), arc(d, b, w)))), [S(a, b)[w]]))]

    def mids(self, d, s, a, b):
        """every other common neighbour of a and b is in their separator"""
        w, = nv("w")
        return FA([w], z3.Implies(z3.And(d.conn(a, w), d.conn(b, w), z3.Not(z3.And(arc(d, a, w), arc(d, b, w)))), z3.Select(D_val(s, TSep), pr(a, b))[w]), [z3.MultiPattern(d.rec(a, w), d.rec(b, w))])

    def shape(self, c, present):
        d, g = GV(c, "dag", c.old), self.graph(c)
        a, b = nv("a", "b")
        return g.inv() + [("same nodes", z3.And(g.N == d.N, g.seq_eq(d))),
                          ("adjacent are those not found separated", FA([a, b], z3.Implies(d.N[a], g.rec(a, b) == z3.And(d.N[b], a != b, present(a, b))), [g.rec(a, b)])),
                          ("all edges are undirected", FA([a, b], z3.Implies(g.conn(a, b), g.und(a, b)), [g.rec(a, b)]))]

    @property
    def loops(self):
        def pairs(c, at=None):
            d, s = GV(c, "dag", c.old), c.lz("sep_set", TSep)
            g = self.graph(c)
            seen = c.frames[0].seen
            a, b, w = nv("a", "b", "w")
            w = w
            S = z3.Select(D_val(s, TSep), pr(a, b))
            mid = ("middle nodes of visited pairs that are no colliders are recorded", FA([a, b, w], z3.Implies(z3.And(seen[pr(a, b)], z3.Not(d.conn(a, b)), d.conn(a, w), d.conn(b, w), z3.Not(z3.And(arc(d, a, w), arc(d, b, w)))), S[w]),
                   [z3.MultiPattern(seen[pr(a, b)], d.rec(a, w), d.rec(b, w))]))
            cur = [T_get(at, i, TPair) for i in (0, 1)] if at is not None else None
            is_cur = (lambda a, b: pair_is2(a, b, *cur)) if cur else (lambda a, b: z3.BoolVal(False))
            here = g.conn(*cur) if cur else None
            return self.recorded(c) + [mid] + self.shape(c, lambda a, b: z3.If(is_cur(a, b), here if cur else True, z3.Or(d.conn(a, b), z3.Not(z3.Or(seen[pr(a, b)], seen[pr(b, a)])))))

        def inside(c):
            d, s, g = GV(c, "dag", c.old), c.lz("sep_set", TSep), self.graph(c)
            at = c.frames[0].elem
            u, v = [T_get(at, i, TPair) for i in (0, 1)]
            return pairs(c, at) + [("an adjacent pair stays adjacent", z3.Implies(d.conn(u, v), g.conn(u, v))),
                                   ("once the pair is separated, its middle nodes that are no colliders are recorded", z3.Implies(z3.Not(g.conn(u, v)), self.mids(d, s, u, v)))]

        def sizes(c):
            d, g = GV(c, "dag", c.old), self.graph(c)
            u, v = [T_get(c.frames[0].elem, i, TPair) for i in (0, 1)]
            Z, t = separates(c, d, u, v)
            return inside(c) + [("a non-adjacent pair is still adjacent only while its candidate is to come", z3.Implies(z3.And(g.conn(u, v), z3.Not(d.conn(u, v))), card(Z, TNode) >= c.frames[1].idx))]

        def subsets(c):
            d, g = GV(c, "dag", c.old), self.graph(c)
            u, v = [T_get(c.frames[0].elem, i, TPair) for i in (0, 1)]
            Z, t = separates(c, d, u, v)
            return inside(c) + [("a non-adjacent pair is still adjacent only while its candidate is to come", z3.Implies(z3.And(g.conn(u, v), z3.Not(d.conn(u, v))),
                              z3.And(card(Z, TNode) >= c.frames[1].idx, z3.Not(c.loop.seen[Z]))))]
        return {(0,): pairs, (0, 0): sizes, (0, 0, 0): subsets}

    @property
    def enter(self):
        def f(c):
            u, v = [T_get(c.frames[0].elem, i, TPair) for i in (0, 1)]
            return candidate(c, GV(c, "dag", c.old), u, v)
        return {(0, 0): f}

    @property
    def before_call(self):
        def agreed(c, bound):
            d, g = GV(c, "dag", c.old), self.graph(c)
            a, b, w = nv("a", "b", "w")
            B, S = getattr(c.eng, "rule0_legs", (None, None))
            about_legs = [] if S is None else [
                ("legs are arrows of the input", FA([a, w], z3.Implies(S[pr(a, w)], arc(d, a, w)), [S[pr(a, w)]])),
                ("legs come in twos", FA([a, w], z3.Implies(S[pr(a, w)], z3.Exists([b], shows(d, a, b, w), patterns=[d.rec(b, w)])), [S[pr(a, w)]])),
                ("colliders are what rule 0 looks for", FA([a, b, w], z3.Implies(shows(d, a, b, w), z3.And(B(a, b, w), B(b, a, w))), [z3.MultiPattern(d.rec(a, w), d.rec(b, w))])),
                ("colliders have legs", FA([a, b, w], z3.Implies(shows(d, a, b, w), z3.And(S[pr(a, w)], S[pr(b, w)])), [z3.MultiPattern(d.rec(a, w), d.rec(b, w))]))]
            return about_legs + [("same nodes and adjacencies", z3.And(g.N == d.N, g.seq_eq(d), FA([a, b], z3.Implies(d.N[a], g.rec(a, b) == d.rec(a, b)), [g.rec(a, b)]))),
                    ("colliders are directed", FA([a, b, w], z3.Implies(shows(d, a, b, w), z3.And(g.dir(a, w), g.dir(b, w))), [z3.MultiPattern(g.rec(a, w), g.rec(b, w)), z3.MultiPattern(d.rec(a, w), d.rec(b, w))])),
                    ("directed edges belong to colliders of the input", FA([a, w], z3.Implies(g.dir(a, w), z3.And(arc(d, a, w), z3.Exists([b], shows(d, a, b, w), patterns=[d.rec(b, w)]))), [g.rec(a, w)])),
                    ("every edge is directed or undirected", FA([a, b], z3.Implies(g.conn(a, b), z3.Or(g.und(a, b), g.dir(a, b), g.dir(b, a))), [g.rec(a, b)])),
                    ("every equivalent acyclic graph agrees", z3.Implies(equivalent(d), agrees(g)))]
        return {"cdmir.graph.pdag.PDAG.orient_by_meek_rules": agreed}


def pair_is2(a, b, u, v):
    return z3.Or(z3.And(a == u, b == v), z3.And(a == v, b == u))
