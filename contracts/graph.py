"""Contracts of cdmir.graph.graph.Graph (and the methods its subclasses override)."""
from contracts.base import *

G = "cdmir.graph.graph.Graph."
ALL = ("Graph", "DiGraph", "PDAG")


class GraphMethod(Contract):
    receivers = ALL

    def requires(self, c):
        return inv_req(c)


class Query(GraphMethod):
    """leaves everything unchanged (empty modifies)"""


def node_missing(c, *names):
    g = GV(c, "self")
    return z3.Or(*[z3.Not(g.N[c.z(n, TNode)]) for n in names])


# ------------------------------------------------------------------ queries
@contract(G + "check_missing_node")
class _(Query):
    params = {"node_u": TNode}
    raises = lambda self, c: {"AssertionError": node_missing(c, "node_u")}


@contract(G + "check_mark")
class _(Contract):
    receivers = ALL
    inline_at_calls = True
    params = {"mark_u": TInt, "valid_marks": TList(TInt)}

    def raises(self, c):
        m = c.z("mark_u", TInt)
        return {"AssertionError": z3.Not(c.val(c.args["valid_marks"], TSet(TInt))[m])}


@contract(G + "nodes")
class _(Query):
    def yields(self, c):
        return "list", GV(c, "self").L, TNL

    loops = {(0,): lambda c: [("nodes so far", prefix_of(c.yielded, c.loop))]}


def prefix_of(y, lp):
    """yielded list == first idx items of the iterated list"""
    i = z3.Int(fresh_name("pi"))
    l = lp.it
    return z3.And(L_len(y.e, y.ty) == lp.idx, lp.idx <= L_len(l.e, l.lty),
                  z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lp.idx), L_arr(y.e, y.ty)[i] == L_arr(l.e, l.lty)[i]), patterns=[L_arr(y.e, y.ty)[i]]))


@contract(G + "number_of_nodes")
class _(Query):
    result_ty = TInt

    def ensures(self, c):
        g = GV(c, "self")
        return [("counts the nodes", z3.And(c.val(c.result, TInt) == L_len(g.L, TNL), c.val(c.result, TInt) == card(g.N, TNode)))]


@contract(G + "is_connected")
class _(Query):
    params = {"node_u": TNode, "node_v": TNode}
    result_ty = TBool
    raises = lambda self, c: {"AssertionError": node_missing(c, "node_u", "node_v")}

    def ensures(self, c):
        g, u, v = GV(c, "self"), c.z("node_u", TNode), c.z("node_v", TNode)
        return [("true exactly for recorded edges", c.val(c.result, TBool) == g.conn(u, v)),
                ("symmetric", g.conn(u, v) == g.conn(v, u))]


class MarkQuery(Query):
    params = {"node_u": TNode, "node_v": TNode}
    result_ty = TBool
    raises = lambda self, c: {"AssertionError": node_missing(c, "node_u", "node_v")}
    pred = None

    def ensures(self, c):
        g, u, v = GV(c, "self"), c.z("node_u", TNode), c.z("node_v", TNode)
        return [("answers from the recorded mark", c.val(c.result, TBool) == self.pred(g, u, v))]


for nm, pr in [("is_arrow", lambda s, g, u, v: g.arrow(u, v)), ("is_tail", lambda s, g, u, v: g.tail(u, v)),
               ("is_circle", lambda s, g, u, v: z3.And(g.conn(u, v), g.mk(u, v) == CIRCLE)),
               ("is_fully_directed", lambda s, g, u, v: g.dir(u, v)), ("is_fully_undirected", lambda s, g, u, v: g.und(u, v))]:
    contract(G + nm)(type(nm, (MarkQuery,), {"pred": pr}))


@contract(G + "get_edge")
class _(Query):
    params = {"node_u": TNode, "node_v": TNode}
    raises = lambda self, c: {"AssertionError": node_missing(c, "node_u", "node_v")}

    def result(self, eng, st, c):
        g, u, v = GV(c, "self"), c.z("node_u", TNode), c.z("node_v", TNode)
        if not eng.in_pure:
            e = fresh("edge", TEdge)
            return OptV(z3.Bool(fresh_name("noedge")), PTup([V(t, T_get(e, i, TEdge)) for i, t in enumerate(TEdge.args)], names=TEdge.names))
        return OptV(z3.Not(g.conn(u, v)), PTup([V(t, x) for t, x in zip(TEdge.args, (u, v, g.mk(v, u), g.mk(u, v)))], names=TEdge.names))

    def ensures(self, c):
        g, u, v = GV(c, "self"), c.z("node_u", TNode), c.z("node_v", TNode)
        r = c.result
        none = z3.BoolVal(True) if r is NONE else r.isnone if isinstance(r, OptV) else z3.BoolVal(False)
        out = [("None exactly when not adjacent", none == z3.Not(g.conn(u, v)))]
        if r is not NONE:
            e = r.val if isinstance(r, OptV) else r
            if not isinstance(e, PTup):
                return [("an edge is returned", z3.BoolVal(False))]
            z = [c.val(x) for x in e.items]
            out.append(("carries the recorded marks", z3.Implies(z3.Not(none), z3.And(z[0] == u, z[1] == v, z[2] == g.mk(v, u), z[3] == g.mk(u, v)))))
        return out


def neigh_set(g, u):
    return D_dom(g.row(u), TAdj1)


@contract(G + "get_neighbours")
class _(Query):
    params = {"node_u": TNode}
    raises = lambda self, c: {"KeyError": node_missing(c, "node_u")}

    def yields(self, c):
        return "set", neigh_set(GV(c, "self"), c.z("node_u", TNode)), TNode

    loops = {(0,): lambda c: [("yielded are the keys seen", c.yielded.e == c.loop.seen)]}

    def footprint(self, c):
        g = c.st.objs[c.args["self"].oid].fields["_adj"]
        return (g.cid,)


def edge_of(g, u, v):
    return T_mk([u, v, g.mk(v, u), g.mk(u, v)], TEdge)


def edge_member(g):
    """predicate on an edge tuple: it is the listed form of an edge of g"""
    def f(t):
        u, v = T_get(t, 0, TEdge), T_get(t, 1, TEdge)
        return z3.And(g.N[u], g.N[v], g.idx(u) < g.idx(v), g.conn(u, v), T_get(t, 2, TEdge) == g.mk(v, u), T_get(t, 3, TEdge) == g.mk(u, v))
    return f


def edge_set(c, g):
    S = fresh("edgeset", TSet(TEdge))
    t = z3.Const(fresh_name("t"), sort(TEdge))
    c.st.assume(z3.ForAll([t], S[t] == edge_member(g)(t), patterns=[S[t]]))
    return S


@contract(G + "edges")
class _(Query):
    def yields(self, c):
        return "set", edge_set(c, GV(c, "self")), TEdge

    def loops_(self):
        def outer(c):
            g, t, i = GV(c, "self"), z3.Const(fresh_name("t"), sort(TEdge)), c.loop.idx
            u = T_get(t, 0, TEdge)
            return [("lists the edges whose first end was visited", z3.ForAll([t], c.yielded.e[t] == z3.And(edge_member(g)(t), g.idx(u) < i), patterns=[c.yielded.e[t]])),
                    ("index in range", z3.And(0 <= i, i <= L_len(g.L, TNL)))]

        def inner(c):
            g, t = GV(c, "self"), z3.Const(fresh_name("t"), sort(TEdge))
            i, j = c.frames[-2].idx, c.loop.idx
            u, v = T_get(t, 0, TEdge), T_get(t, 1, TEdge)
            return [("lists the edges visited", z3.ForAll([t], c.yielded.e[t] == z3.And(edge_member(g)(t), z3.Or(g.idx(u) < i, z3.And(g.idx(u) == i, g.idx(v) < j))), patterns=[c.yielded.e[t]])),
                    ("index in range", z3.And(i + 1 <= j, j <= L_len(g.L, TNL)))]
        return {(0,): outer, (0, 0): inner}
    loops = property(loops_)

    def at_yield(self, c, v):
        # the listing follows the node order: lexicographic in (position of first end, position of second end)
        g = GV(c, "self")
        t = z3.Const(fresh_name("t"), sort(TEdge))
        e = c.val(v, TEdge)
        iu, iv = g.idx(T_get(e, 0, TEdge)), g.idx(T_get(e, 1, TEdge))
        ju, jv = g.idx(T_get(t, 0, TEdge)), g.idx(T_get(t, 1, TEdge))
        return [("edges are listed in node order", z3.ForAll([t], z3.Implies(c.yielded.e[t], z3.Or(ju < iu, z3.And(ju == iu, jv <= iv)))))]


@contract(G + "number_of_edges")
class _(Query):
    result_ty = TInt

    def ensures(self, c):
        return [("counts the listed edges", c.val(c.result, TInt) == card(edge_set(c, GV(c, "self")), TEdge))]


@contract(G + "to_numpy")
class _(Query):
    params = {"transpose": TBool}
    result_ty = TMat(TInt)

    def ensures(self, c):
        g = GV(c, "self")
        m = c.val(c.result, TMat(TInt))
        ty = TMat(TInt)
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        n = L_len(g.L, TNL)
        u, v = L_arr(g.L, TNL)[i], L_arr(g.L, TNL)[j]
        tr = c.z("transpose", TBool)
        cell = z3.If(tr, M_arr(m, ty)[j][i], M_arr(m, ty)[i][j])
        # row i, column j: the mark at node i's end of the edge between i and j
        want = z3.If(g.conn(v, u), g.mk(v, u), 0)
        a, b = nv("a", "b")
        at = lambda x, y: z3.If(tr, M_arr(m, ty)[g.idx(x)][g.idx(y)], M_arr(m, ty)[g.idx(y)][g.idx(x)])
        return [("n by n", z3.And(M_rows(m, ty) == n, M_cols(m, ty) == n)),
                ("row and column of two nodes hold their marks", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]), at(a, b) == z3.If(g.conn(a, b), g.mk(a, b), 0)), [g.rec(a, b)])),
                ("holds the recorded marks", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n), cell == want), patterns=[M_arr(m, ty)[i][j]]))]

    def loops_(self):
        ty = TMat(TInt)

        def cells(c, done):
            g = GV(c, "self")
            m = c.lz("adj_matrix", ty)
            a, b = nv("a", "b")
            n = L_len(g.L, TNL)
            return [("shape", z3.And(M_rows(m, ty) == n, M_cols(m, ty) == n)),
                    ("cells written so far", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]),
                     M_arr(m, ty)[g.idx(b)][g.idx(a)] == z3.If(z3.And(g.conn(a, b), done(g, a, b)), g.mk(a, b), 0)), [z3.MultiPattern(g.idx(b), g.idx(a))]))]

        def outer(c):
            return cells(c, lambda g, a, b: g.idx(a) < c.loop.idx)

        def inner(c):
            i = c.frames[-2].idx
            return cells(c, lambda g, a, b: z3.Or(g.idx(a) < i, z3.And(g.idx(a) == i, c.loop.seen[b])))
        return {(0,): outer, (0, 0): inner}
    loops = property(loops_)


# ------------------------------------------------------------------ edits
class Edit(GraphMethod):
    mods = ("node_set", "node_list", "_adj")

    def modifies(self, c):
        return [(c.args["self"], f) for f in self.mods]

    def post_inv(self, c):
        return GV(c, "self").inv()


def unchanged_nodes(g, o):
    return [("node set unchanged", g.N == o.N), ("node order unchanged", g.seq_eq(o))]


def edges_except(g, o, pred, label="all other edges and marks unchanged"):
    a, b = nv("a", "b")
    return (label, FA([a, b], z3.Implies(z3.And(o.N[a], o.N[b], z3.Not(pred(a, b))),
            z3.And(g.conn(a, b) == o.conn(a, b), z3.Implies(o.conn(a, b), g.mk(a, b) == o.mk(a, b)))), [g.rec(a, b)]))


def pair_is(a, b, u, v):
    return z3.Or(z3.And(a == u, b == v), z3.And(a == v, b == u))


@contract(G + "__init__")
class _(Contract):
    receivers = ALL
    params = {"nodes": TNL}
    variants = ({}, {"nodes": lambda e, s, n: NONE}, {"nodes": TNS})

    def variant_name(self, v):
        return "" if not v else "no nodes" if callable(v["nodes"]) and not isinstance(v["nodes"], Ty) else "from a set"
    constructor = True

    def callable_with(self, eng, st, bound):
        v = bound["nodes"]
        if v is NONE:
            return True
        if not isinstance(v, Ref):
            return False
        k = eng.content(st, v)
        return isinstance(k, V) and k.ty in (TNL, TNS)

    def setup(self, eng, st, args):
        st.objs[args["self"].oid].fields.clear()

    def raises(self, c):
        v = c.args["nodes"]
        if v is NONE or c.eng.type_of(c.st, v).kind == "Set":
            return {}
        return {"AssertionError": z3.Not(L_dist(c.z("nodes", TNL), TNL))}

    def modifies(self, c):
        return [(c.args["self"], f) for f in ("node_set", "node_list", "_adj")]
    raises_unchanged = False

    def ensures(self, c):
        g = GV(c, "self")
        u, v = nv("u", "v")
        x = c.args["nodes"]
        if x is NONE:
            want = g.N == empty_set(TNode)
        elif c.eng.type_of(c.old, x).kind == "Set":
            want = g.N == c.val(x, TNS, c.old)
        else:
            l = c.val(x, TNL, c.old)
            i = z3.Int(fresh_name("i"))
            want = z3.And(g.N == L_elems(l, TNL), L_len(g.L, TNL) == L_len(l, TNL), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(l, TNL)), L_arr(g.L, TNL)[i] == L_arr(l, TNL)[i])))
        return g.inv() + [("exactly the given nodes, in order", want), ("no edges", FA([u, v], z3.Not(g.conn(u, v)), [g.rec(u, v)]))]


@contract(G + "init_graph", inline_at_calls=True)
class _(Contract):
    receivers = ALL
    def requires(self, c):
        g = GV(c, "self")
        return [("fresh adjacency", D_dom(g.adj, TAdj) == empty_set(TNode)), ("nodes", z3.And(L_elems(g.L, TNL) == g.N, L_dist(g.L, TNL)))]

    def modifies(self, c):
        return [(c.args["self"], "_adj")]

    def ensures(self, c):
        g = GV(c, "self")
        u, v = nv("u", "v")
        return g.inv() + [("no edges", FA([u, v], z3.Not(g.conn(u, v)), [g.rec(u, v)]))]


def init_loop(c):
    g = GV(c, "self")
    u, v = nv("u", "v")
    return [("rows so far", D_dom(g.adj, TAdj) == c.loop.seen),
            ("rows empty", FA([u, v], z3.Implies(c.loop.seen[u], z3.Not(g.rec(u, v))), [g.rec(u, v)]))]


REG[G + "init_graph"].loops = {(0,): init_loop}
REG[G + "__init__"].loops = {(0,): init_loop}


@contract(G + "add_node")
class _(Edit):
    params = {"node_u": TNode}

    def ensures(self, c):
        g, o, u = GV(c, "self"), GV(c, "self", c.old), c.z("node_u", TNode)
        i = z3.Int(fresh_name("i"))
        n = L_len(o.L, TNL)
        x, = nv("x")
        return self.post_inv(c) + [
            ("node present", g.N == sadd(o.N, u)),
            ("existing nodes keep their order, a new one comes last", z3.And(
                L_len(g.L, TNL) == z3.If(o.N[u], n, n + 1),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), L_arr(g.L, TNL)[i] == L_arr(o.L, TNL)[i])),
                z3.Implies(z3.Not(o.N[u]), L_arr(g.L, TNL)[n] == u))),
            edges_except(g, o, lambda a, b: z3.BoolVal(False)),
            ("a new node has no edges", z3.Implies(z3.Not(o.N[u]), FA([x], z3.Not(g.conn(u, x)), [g.rec(u, x)])))]


@contract(G + "add_nodes")
class _(Edit):
    params = {"nodes": TNL}

    def ensures(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        l = c.val(c.args["nodes"], TNS, c.old)
        i = z3.Int(fresh_name("i"))
        return self.post_inv(c) + [
            ("exactly the given nodes are added", g.N == sunion(o.N, l)),
            ("existing nodes keep their positions", z3.And(L_len(g.L, TNL) >= L_len(o.L, TNL),
             z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(o.L, TNL)), L_arr(g.L, TNL)[i] == L_arr(o.L, TNL)[i])))),
            edges_except(g, o, lambda a, b: z3.BoolVal(False)),
            new_isolated(g, o)]

    def loops_(self):
        def f(c):
            g, o = GV(c, "self"), GV(c, "self", c.old)
            i = z3.Int(fresh_name("i"))
            return g.inv() + [("added so far", g.N == sunion(o.N, c.loop.seen)),
                              ("positions kept", z3.And(L_len(g.L, TNL) >= L_len(o.L, TNL),
                               z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(o.L, TNL)), L_arr(g.L, TNL)[i] == L_arr(o.L, TNL)[i]), patterns=[L_arr(g.L, TNL)[i]]))),
                              edges_except(g, o, lambda a, b: z3.BoolVal(False)), new_isolated(g, o)]
        return {(0,): f}
    loops = property(loops_)


def new_isolated(g, o):
    x, y = nv("x", "y")
    return ("new nodes have no edges", FA([x, y], z3.Implies(z3.And(g.N[x], z3.Not(o.N[x])), z3.Not(g.conn(x, y))), [g.rec(x, y)]))


def edge_parts(c):
    e = c.args["edge"]
    if isinstance(e, V):
        e = c.eng.wrap(TEdge, e.e)
    return [c.val(x, t) for x, t in zip(e.items, TEdge.args)]


def edge_refused(c, kind):
    """condition under which adding the edge is refused"""
    g = GV(c, "self")
    u, v, mu, mv = edge_parts(c)
    ow = c.z("overwrite", TBool)
    base = z3.Or(z3.Not(g.N[u]), z3.Not(g.N[v]), z3.And(z3.Not(ow), g.conn(u, v)))
    if kind == "DiGraph":
        base = z3.Or(base, mu != TAIL, mv != ARROW)
    if kind == "PDAG":
        base = z3.Or(base, z3.And(mu != TAIL, mu != ARROW), z3.And(mv != TAIL, mv != ARROW))
    return base


class AddEdge(Edit):
    params = {"edge": TEdge, "overwrite": TBool}
    mods = ("_adj",)
    kind = "Graph"

    def requires(self, c):
        u, v, mu, mv = edge_parts(c)
        extra = []
        cls = GV(c, "self").cls
        if self.kind == "Graph" and cls != "Graph":
            # called through super(): the subclass has already checked the marks
            extra = [("marks checked by the subclass", marks_ok(cls, mu, mv))]
        return inv_req(c) + [("the two ends differ", u != v)] + extra

    def raises(self, c):
        return {"AssertionError": edge_refused(c, self.kind)}

    def ensures(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        u, v, mu, mv = edge_parts(c)
        return self.post_inv(c) + unchanged_nodes(g, o) + [
            ("the edge is present with the given marks", z3.And(g.conn(u, v), g.conn(v, u), g.mk(u, v) == mv, g.mk(v, u) == mu)),
            edges_except(g, o, lambda a, b: pair_is(a, b, u, v))]


def marks_ok(cls, mu, mv):
    if cls == "DiGraph":
        return z3.And(mu == TAIL, mv == ARROW)
    return z3.And(z3.Or(mu == TAIL, mu == ARROW), z3.Or(mv == TAIL, mv == ARROW))


contract(G + "add_edge")(AddEdge)
contract("cdmir.graph.digraph.DiGraph.add_edge", kind="DiGraph", receivers=("DiGraph",))(AddEdge)
contract("cdmir.graph.pdag.PDAG.add_edge", kind="PDAG", receivers=("PDAG",))(AddEdge)


@contract(G + "remove_edge")
class _(Edit):
    params = {"node_u": TNode, "node_v": TNode}
    mods = ("_adj",)
    raises = lambda self, c: {"AssertionError": node_missing(c, "node_u", "node_v")}

    def ensures(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        u, v = c.z("node_u", TNode), c.z("node_v", TNode)
        return self.post_inv(c) + unchanged_nodes(g, o) + [
            ("the edge is gone", z3.And(z3.Not(g.conn(u, v)), z3.Not(g.conn(v, u)))),
            edges_except(g, o, lambda a, b: pair_is(a, b, u, v))]


@contract(G + "remove_node")
class _(Edit):
    params = {"node_u": TNode}
    raises = lambda self, c: {"AssertionError": node_missing(c, "node_u")}

    def ensures(self, c):
        g, o, u = GV(c, "self"), GV(c, "self", c.old), c.z("node_u", TNode)
        return self.post_inv(c) + removed(g, o, u)

    def loops_(self):
        def f(c):
            g, o, u = GV(c, "self"), GV(c, "self", c.old), c.z("node_u", TNode)
            a, b = nv("a", "b")
            return [("rows kept", D_dom(g.adj, TAdj) == o.N),
                    ("the node is dropped from the visited rows only", FA([a, b], z3.Implies(o.N[a],
                     z3.And(g.rec(a, b) == z3.And(o.rec(a, b), z3.Not(z3.And(b == u, c.loop.seen[a]))), z3.Implies(g.rec(a, b), g.mk(a, b) == o.mk(a, b)))), [g.rec(a, b)]))]
        return {(0,): f}
    loops = property(loops_)


def removed(g, o, u):
    a, b = nv("a", "b")
    return [("exactly the node is removed", g.N == sdel(o.N, u)),
            ("the other nodes keep their order", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]), (g.idx(a) < g.idx(b)) == (o.idx(a) < o.idx(b))), [z3.MultiPattern(g.idx(a), g.idx(b))])),
            ("edges between the other nodes unchanged", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]),
             z3.And(g.conn(a, b) == o.conn(a, b), z3.Implies(o.conn(a, b), g.mk(a, b) == o.mk(a, b)))), [g.rec(a, b)]))]


@contract(G + "remove_nodes_from")
class _(Edit):
    params = {"nodes": TNL}

    def requires(self, c):
        l = c.z("nodes", TNL)
        return inv_req(c) + [("the named nodes exist and are named once", z3.And(L_dist(l, TNL), ssub(L_elems(l, TNL), GV(c, "self").N, TNode)))]

    def ensures(self, c):
        return self.post_inv(c) + removed_all(GV(c, "self"), GV(c, "self", c.old), c.val(c.args["nodes"], TNS, c.old))

    def loops_(self):
        return {(0,): lambda c: GV(c, "self").inv() + removed_all(GV(c, "self"), GV(c, "self", c.old), c.loop.seen)}
    loops = property(loops_)


def removed_all(g, o, S):
    a, b = nv("a", "b")
    return [("exactly the named nodes are removed", g.N == sdiff(o.N, S)),
            ("the other nodes keep their order", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]), (g.idx(a) < g.idx(b)) == (o.idx(a) < o.idx(b))), [z3.MultiPattern(g.idx(a), g.idx(b))])),
            ("edges between the other nodes unchanged", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]),
             z3.And(g.conn(a, b) == o.conn(a, b), z3.Implies(o.conn(a, b), g.mk(a, b) == o.mk(a, b)))), [g.rec(a, b)]))]


# ------------------------------------------------------------------ several edges at once
TEL = register(TList(TEdge))


def named(c, seen):
    """pairs named by a set of edges (either order)"""
    P = fresh("named", TSet(TPair))
    a, b = nv("a", "b")
    m1, m2 = z3.Int(fresh_name("m")), z3.Int(fresh_name("m"))
    t = T_mk([a, b], TPair)
    c.st.assume(FA([a, b], P[t] == z3.Exists([m1, m2], z3.Or(seen[T_mk([a, b, m1, m2], TEdge)], seen[T_mk([b, a, m1, m2], TEdge)])), [P[t]]))
    return lambda x, y: P[T_mk([x, y], TPair)]


def edges_added(c, seen):
    g, o = GV(c, "self"), GV(c, "self", c.old)
    a, b = nv("a", "b")
    m1, m2 = z3.Int(fresh_name("m")), z3.Int(fresh_name("m"))
    nm = named(c, seen)
    e = T_mk([a, b, m1, m2], TEdge)
    ow = c.z("overwrite", TBool)
    return [("pairs that are not named are unchanged", FA([a, b], z3.Implies(z3.And(o.N[a], o.N[b], z3.Not(nm(a, b))),
             z3.And(g.conn(a, b) == o.conn(a, b), z3.Implies(o.conn(a, b), g.mk(a, b) == o.mk(a, b)))), [g.rec(a, b)])),
            ("named pairs are adjacent", FA([a, b, m1, m2], z3.Implies(seen[e], z3.And(o.N[a], o.N[b], g.conn(a, b), z3.Implies(z3.Not(ow), z3.And(g.mk(a, b) == m2, g.mk(b, a) == m1)))), [seen[e]]))]


@contract(G + "add_edges")
class _(Edit):
    params = {"edge_list": TEL, "overwrite": TBool}
    mods = ("_adj",)
    inline_at_calls = True
    may_raise = ("AssertionError",)
    raises_unchanged = False

    def requires(self, c):
        e = z3.Const(fresh_name("e"), sort(TEdge))
        l = c.z("edge_list", TEL)
        return inv_req(c) + [("the two ends of every edge differ", z3.ForAll([e], z3.Implies(L_elems(l, TEL)[e], T_get(e, 0, TEdge) != T_get(e, 1, TEdge)), patterns=[L_elems(l, TEL)[e]]))]

    def ensures(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        l = c.val(c.args["edge_list"], TEL, c.old)
        return self.post_inv(c) + edges_added(c, L_elems(l, TEL))

    def on_raise(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        return g.inv()

    loops = {(0,): lambda c: GV(c, "self").inv() + edges_added(c, c.loop.seen)}
