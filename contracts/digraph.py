"""Contracts of cdmir.graph.digraph.DiGraph."""
from contracts.base import *
from contracts.graph import Query, node_missing

D = "cdmir.graph.digraph.DiGraph."


def def_set(c, ety, pred, name="S", pats=None):
    """a set given by a predicate on its members"""
    S = fresh(name, TSet(ety))
    x = z3.Const(fresh_name("m"), sort(ety))
    c.st.assume(z3.ForAll([x], S[x] == pred(x), patterns=[S[x]] + (pats(x) if pats else [])))
    return S


def rel_map(c, g, tag, pred):
    """canonical map node -> set of nodes, defined by pred(u, v); one symbol per recorded adjacency"""
    cache = c.eng.__dict__.setdefault("relmaps", {})
    key = (tag, g.adj.get_id())
    if key not in cache:
        M = z3.Const(fresh_name(tag), z3.ArraySort(Node, z3.ArraySort(Node, z3.BoolSort())))
        u, v = nv("ru", "rv")
        cache[key] = (M, FA([u, v], M[u][v] == pred(u, v), [M[u][v], g.rec(u, v)]), g.adj)
    M, ax, _ = cache[key]
    if not any(f is ax or f.eq(ax) for f in c.st.facts):
        c.st.assume(ax)
    return M


def parents(c, g, u):
    return rel_map(c, g, "pa", lambda u, v: z3.And(g.rec(u, v), g.mk(v, u) == ARROW))[u]


def children(c, g, u):
    return rel_map(c, g, "ch", lambda u, v: z3.And(g.rec(u, v), g.mk(u, v) == ARROW))[u]


class Rel(Query):
    receivers = ("DiGraph",)
    params = {"node_u": TNode}
    raises = lambda self, c: {"KeyError": node_missing(c, "node_u")}
    rel = None

    def yields(self, c):
        return "set", self.rel(c, GV(c, "self"), c.z("node_u", TNode)), TNode

    @property
    def loops(self):
        def f(c):
            g, u = GV(c, "self"), c.z("node_u", TNode)
            x, = nv("x")
            mine = g.mk(x, u) == ARROW if type(self).__name__ == "get_parents" else g.mk(u, x) == ARROW
            return [("yielded are the matching neighbours seen", FA([x], c.yielded.e[x] == z3.And(c.loop.seen[x], mine), [c.yielded.e[x]]))]
        return {(0,): f}

    def footprint(self, c):
        return (c.st.objs[c.args["self"].oid].fields["_adj"].cid,)


contract(D + "get_parents")(type("get_parents", (Rel,), {"rel": lambda s, c, g, u: parents(c, g, u)}))
contract(D + "get_children")(type("get_children", (Rel,), {"rel": lambda s, c, g, u: children(c, g, u)}))


class Degree(Query):
    receivers = ("DiGraph",)
    params = {"node_u": TNode}
    result_ty = TInt
    raises = lambda self, c: {"KeyError": node_missing(c, "node_u")}
    rel = None

    def ensures(self, c):
        return [("counts the far ends", c.val(c.result, TInt) == card(self.rel(c, GV(c, "self"), c.z("node_u", TNode)), TNode))]


contract(D + "in_degree")(type("in_degree", (Degree,), {"rel": lambda s, c, g, u: parents(c, g, u)}))
contract(D + "out_degree")(type("out_degree", (Degree,), {"rel": lambda s, c, g, u: children(c, g, u)}))


# ------------------------------------------------------------------ topological order
RANK = z3.Function("rank", Node, z3.IntSort())   # an arbitrary ranking: every contract below holds for each of them
TCnt, TFlag = register(TDict(TNode, TInt)), register(TDict(TNode, TBool))


def arc(g, u, v):
    """u -> v"""
    return g.arrow(u, v)


def ranked(g, r=None):
    """r increases along every arrow (a graph has such an r exactly when it has no directed cycle)"""
    r = r or (lambda x: RANK(x))
    u, v = nv("ru", "rv")
    return FA([u, v], z3.Implies(arc(g, u, v), r(u) < r(v)), [g.rec(u, v)])


def least(c, X, r=None, ety=TNode):
    """lemma: a non-empty finite set has a member of least rank"""
    r = r or (lambda x: RANK(x))
    m, = nv("least")
    x, = nv("x")
    c.st.assume(z3.Or(X == empty_set(TNode), z3.And(X[m], FA([x], z3.Implies(X[x], r(m) <= r(x)), [X[x]]))))
    return m


@contract(D + "topo_sort", cost=5)
class _(Query):
    receivers = ("DiGraph",)
    result_ty = TNL

    def ensures(self, c):
        g = GV(c, "self")
        S = c.val(c.result, TNL)
        el = L_elems(S, TNL)
        u, v = nv("u", "v")
        least(c, def_set(c, TNode, lambda x: z3.And(g.N[x], z3.Not(el[x])), "left", lambda x: [g.N[x]]))
        return [("no node is listed twice, only nodes are", z3.And(L_dist(S, TNL), ssub(el, g.N, TNode))),
                ("parents come first", FA([u, v], z3.Implies(z3.And(el[v], arc(g, u, v)), z3.And(el[u], L_idx(S, u, TNL) < L_idx(S, v, TNL))), [z3.MultiPattern(el[v], g.rec(u, v))])),
                ("lemma: all nodes are listed when there is no directed cycle", z3.Implies(ranked(g), FA([u], z3.Implies(g.N[u], el[u]), [g.N[u]]))),
                ("all nodes are listed when there is no directed cycle", z3.Implies(ranked(g), z3.And(el == g.N, L_len(S, TNL) == card(g.N, TNode))))]

    @property
    def loops(self):
        def parts(c):
            g = GV(c, "self")
            return g, c.lz("q", TNL), c.lz("sorted_node_list", TNL), c.lz("found_parents", TCnt), c.lz("v", TFlag)

        def basic(c):
            g, q, S, fp, v = parts(c)
            x, y = nv("x", "y")
            qe, se = L_elems(q, TNL), L_elems(S, TNL)
            return [("listed and queued nodes are distinct", z3.And(L_dist(q, TNL), L_dist(S, TNL), FA([x], z3.Not(z3.And(qe[x], se[x])), [z3.MultiPattern(qe[x], se[x])]))),
                    ("tables cover the nodes", z3.And(D_dom(fp, TCnt) == g.N, D_dom(v, TFlag) == g.N)),
                    ("marked are exactly the listed and queued", FA([x], z3.Implies(g.N[x], z3.Select(D_val(v, TFlag), x) == z3.Or(qe[x], se[x])), [z3.Select(D_val(v, TFlag), x), qe[x]])),
                    ("only nodes are queued or listed", z3.And(ssub(qe, g.N, TNode), ssub(se, g.N, TNode))),
                    ("parents come first", FA([x, y], z3.Implies(z3.And(se[y], arc(g, x, y)), z3.And(se[x], L_idx(S, x, TNL) < L_idx(S, y, TNL))), [z3.MultiPattern(se[y], g.rec(x, y))]))]

        def first(c):
            g, q, S, fp, v = parts(c)
            x, y = nv("x", "y")
            qe = L_elems(q, TNL)
            return basic(c) + [("nothing listed yet", L_len(S, TNL) == 0),
                               ("no arrow counted yet", FA([x], z3.Implies(g.N[x], z3.Select(D_val(fp, TCnt), x) == 0), [z3.Select(D_val(fp, TCnt), x)])),
                               ("queued are the visited nodes without parents", FA([x], qe[x] == z3.And(c.loop.seen[x], parents(c, g, x) == empty_set(TNode)), [qe[x]]))]

        def counted(c, S, x, extra):
            g, q, _, fp, v = parts(c)
            pa = parents(c, g, x)
            return z3.Select(D_val(fp, TCnt), x) == card_in(pa, S, TNode) + extra

        def main(c):
            g, q, S, fp, v = parts(c)
            x, = nv("x")
            se, qe = L_elems(S, TNL), L_elems(q, TNL)
            return basic(c) + [("arrows from listed nodes are counted", FA([x], z3.Implies(g.N[x], counted(c, se, x, 0)), [z3.Select(D_val(fp, TCnt), x)])),
                               ("marked exactly when all parents are listed", FA([x], z3.Implies(g.N[x], z3.Select(D_val(v, TFlag), x) == ssub(parents(c, g, x), se, TNode)), [z3.Select(D_val(v, TFlag), x), se[x]]))]

        def inner(c):
            g, q, S, fp, v = parts(c)
            x, = nv("x")
            se = L_elems(S, TNL)
            u = c.lz("node_u", TNode)
            prev = sdel(se, u)
            seen = c.loop.seen
            return [("lemma: the node just listed, its parents were listed before", z3.And(g.N[u], se[u], ssub(parents(c, g, u), prev, TNode))),
                    ("lemma: it comes last", L_idx(S, u, TNL) == L_len(S, TNL) - 1)] + basic(c) + [
                               ("arrows from nodes listed before, plus the ones seen now", FA([x], z3.Implies(g.N[x], counted(c, prev, x, z3.If(seen[x], 1, 0))), [z3.Select(D_val(fp, TCnt), x)])),
                               ("marked exactly when all parents are listed (or seen now)", FA([x], z3.Implies(g.N[x], z3.Select(D_val(v, TFlag), x) ==
                                z3.And(ssub(parents(c, g, x), se, TNode), z3.Implies(parents(c, g, x)[u], seen[x]))), [z3.Select(D_val(v, TFlag), x)]))]
        return {(0,): first, (1,): main, (1, 0): inner}

    decreases = {(1,): lambda c: [card(GV(c, "self").N, TNode) - L_len(c.lz("sorted_node_list", TNL), TNL)]}


@contract(D + "is_acyclic")
class _(Query):
    receivers = ("DiGraph",)
    result_ty = TBool

    def ensures(self, c):
        g = GV(c, "self")
        r = c.val(c.result, TBool)
        # the ranking that shows acyclicity: positions in the topological order computed inside
        W = c.st.ghost.get("order")
        if W is None:
            if c.eng.target is not None and c.eng.target.qual == self.qual:
                raise Unsupported("no topological order is computed")
            W = V(TNL, fresh("order", TNL))
        return [("true on every graph whose arrows follow some ranking", z3.Implies(ranked(g), r)),
                ("true only when some order of the nodes has every arrow pointing forward", z3.Implies(r, ranked(g, lambda x: L_idx(W.e, x, TNL))))]


def remember_order(eng, st, c):
    r = eng.havoc_value(st, TNL, "topo")
    st.ghost["order"] = V(TNL, eng.to_z3(st, r, TNL))
    return r


REG[D + "topo_sort"].result = remember_order


# ------------------------------------------------------------------ active trails
TND = register(TTup(TNode, TInt))
TNDS, TNDL, TNDF = register(TSet(TND)), register(TList(TND)), register(TDict(TND, TBool))
UP, DOWN = 1, 0      # how a trail reached the node: from one of its children (or as the start) / from one of its parents


def nd(x, d):
    return T_mk([x, z3.IntVal(d) if isinstance(d, int) else d], TND)


def an_closed(g, Z, A):
    """A contains Z and the parents of its members"""
    y, p = nv("y", "p")
    return z3.And(ssub(Z, A, TNode), FA([y, p], z3.Implies(z3.And(A[y], arc(g, p, y)), A[p]), [z3.MultiPattern(A[y], g.rec(p, y)), z3.MultiPattern(A[y], A[p])]))


def trail_steps(g, Z, A, R):
    """the pairs (node, direction) reached by an active trail are closed under one more step"""
    y, w = nv("y", "w")
    rup, rdn = R[nd(y, UP)], R[nd(y, DOWN)]
    out = []
    for pat in ([g.rec(w, y)],):
        out.append(FA([y, w], z3.Implies(z3.And(rup, z3.Not(Z[y]), arc(g, w, y)), R[nd(w, UP)]), [z3.MultiPattern(rup, g.rec(w, y)), z3.MultiPattern(rup, R[nd(w, UP)])]))
        out.append(FA([y, w], z3.Implies(z3.And(rdn, A[y], arc(g, w, y)), R[nd(w, UP)]), [z3.MultiPattern(rdn, g.rec(w, y)), z3.MultiPattern(rdn, R[nd(w, UP)])]))
        out.append(FA([y, w], z3.Implies(z3.And(rup, z3.Not(Z[y]), arc(g, y, w)), R[nd(w, DOWN)]), [z3.MultiPattern(rup, g.rec(y, w)), z3.MultiPattern(rup, R[nd(w, DOWN)])]))
        out.append(FA([y, w], z3.Implies(z3.And(rdn, z3.Not(Z[y]), arc(g, y, w)), R[nd(w, DOWN)]), [z3.MultiPattern(rdn, g.rec(y, w)), z3.MultiPattern(rdn, R[nd(w, DOWN)])]))
    return z3.And(*out)


class Trails:
    """ancestors A of Z, and the pairs R reached from x by active trails given Z: least sets closed under the steps"""

    def __init__(self, c, g, x, Z):
        x = named_value(c, x)
        cache = c.eng.__dict__.setdefault("trails", {})
        key = (g.adj.get_id(), g.N.get_id(), x.get_id(), Z.get_id())
        if key not in cache:
            # one function symbol per graph value: equal arguments give equal sets
            fns = c.eng.__dict__.setdefault("trailfns", {})
            gk = (g.adj.get_id(), g.N.get_id())
            if gk not in fns:
                S = z3.ArraySort(Node, z3.BoolSort())
                fns[gk] = (z3.Function(fresh_name("anc"), S, S), z3.Function(fresh_name("reached"), Node, S, sort(TNDS)), g.adj, g.N)
            A, R = fns[gk][0](Z), fns[gk][1](x, Z)
            cache[key] = (A, R, an_closed(g, Z, A), z3.And(R[nd(x, UP)], trail_steps(g, Z, A, R)), (g, x, Z))
        self.A, self.R, f1, f2, _ = cache[key]
        self.c, self.g, self.x, self.Z = c, g, x, Z
        for f in (f1, f2):
            c.st.assume(f)

    def least_anc(self, X):
        """lemma (A is least): every set that contains Z and parents of its members contains A"""
        self.c.st.assume(z3.Implies(an_closed(self.g, self.Z, X), ssub(self.A, X, TNode)))

    def least_reach(self, X):
        """lemma (R is least)"""
        self.c.st.assume(z3.Implies(z3.And(X[nd(self.x, UP)], trail_steps(self.g, self.Z, self.A, X)), ssub(self.R, X, TND)))

    def reaches(self, y):
        return z3.And(z3.Not(self.Z[y]), z3.Or(self.R[nd(y, UP)], self.R[nd(y, DOWN)]))


def once(ty):
    def f(eng, st, n):
        register(ty)
        return eng.alloc(st, POnce(fresh(n, ty), ty))
    f.__name__ = "one-shot iterator"
    return f


def none(e, s, n):
    return NONE


def named(c, S, ety=TNode):
    """a constant for a set given by a compound expression (so that it can be matched)"""
    if z3.is_app(S) and S.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return S
    memo = c.eng.__dict__.setdefault("named_sets", {})
    if S.get_id() not in memo:
        memo[S.get_id()] = (fresh("given", TSet(ety)), S)
    k = memo[S.get_id()][0]
    x = z3.Const(fresh_name("m"), sort(ety))
    c.st.assume(z3.And(k == S, z3.ForAll([x], k[x] == z3.simplify(S[x]), patterns=[k[x]])))
    return k


def has_ite(e):
    return z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(x) for x in e.children()))


def named_value(c, x):
    """a constant for a value given by a conditional expression (so that it can be part of a pattern)"""
    if not has_ite(x):
        return x
    memo = c.eng.__dict__.setdefault("named_values", {})
    if x.get_id() not in memo:
        memo[x.get_id()] = (z3.Const(fresh_name("named"), x.sort()), x)
    c.st.assume(memo[x.get_id()][0] == x)
    return memo[x.get_id()][0]


def zset(c, name="z"):
    """the members of a conditioning collection when the function was called"""
    return named(c, zset_(c, name))


def zset_(c, name):
    v = c.args[name]
    if v is NONE or v is UNSET:
        return empty_set(TNode)
    st = c.old
    if isinstance(v, Ref):
        k = st.heap[v.cid].c
        if isinstance(k, POnce):
            return L_elems(k.e, k.lty)
        if isinstance(k, V) and k.ty.kind == "List":
            return L_elems(k.e, k.ty)
    return c.val(v, TNS, st)


UNSET = object()
TZ = register(TFSet(TNode))   # a tuple of distinct nodes
ZVARIANTS = ({"z": TNS}, {"z": none}, {"z": TNL}, {"z": once(TNL)}, {"z": TZ})


class TrailQuery(Query):
    receivers = ("DiGraph",)
    variants = ZVARIANTS

    def variant_name(self, v):
        t = v["z"]
        return "z: " + (t.kind if isinstance(t, Ty) else t.__name__)

    def requires(self, c):
        g = GV(c, "self")
        return inv_req(c) + [("the start is a node", g.N[c.z("x", TNode)]), ("the conditioning set consists of nodes", ssub(zset(c), g.N, TNode))]

    def modifies(self, c):
        v = c.args["z"]
        return [v] if isinstance(v, Ref) and isinstance(c.old.heap[v.cid].c, POnce) else []

    def trails(self, c):
        return Trails(c, GV(c, "self"), c.z("x", TNode), zset(c))


@contract(D + "get_reachable_nodes", cost=8, parts=4)
class _(TrailQuery):
    params = {"x": TNode, "z": TNS}

    def yields(self, c):
        t = self.trails(c)
        return "multiset", def_set(c, TNode, t.reaches, "reach"), TNode

    def finished(self, c):
        """the pairs that are marked and no longer queued"""
        g = GV(c, "self")
        Q, v = c.lz("node_direction_l_queue", TNDL), c.lz("node_direction_l_visited", TNDF)
        fin = c.eng.__dict__.setdefault("finished", {})
        key = (Q.get_id(), v.get_id())
        if key not in fin:
            S = fresh("finished", TNDS)
            k = z3.Const(fresh_name("k"), sort(TND))
            fin[key] = (S, z3.ForAll([k], S[k] == z3.And(g.N[T_get(k, 0, TND)], z3.Or(T_get(k, 1, TND) == UP, T_get(k, 1, TND) == DOWN), z3.Select(D_val(v, TNDF), k), z3.Not(L_elems(Q, TNDL)[k])), patterns=[S[k]]), Q, v)
        c.st.assume(fin[key][1])
        return fin[key][0]

    def progress_(self):
        def m2(c, h):
            F1, F0 = self.finished(c), self.finished(h)
            c.st.assume(h.st.facts[-1])
            cur = T_mk([c.lz("y", TNode), c.lz("direction", TInt)], TND)
            S = self.all_pairs(c)
            return [("lemma: finished pairs stay finished", ssub(F0, F1, TND)), ("lemma: one more pair is finished", z3.And(F1[cur], z3.Not(F0[cur]))),
                    ("lemma: finished are pairs", ssub(F1, S, TND)), ("lemma: counts", z3.And(card(F0, TND) < card(F1, TND), card(F1, TND) <= card(S, TND)))]
        return {(2,): m2}
    progress = property(progress_)

    def all_pairs(self, c):
        g = GV(c, "self")
        al = c.eng.__dict__.setdefault("allpairs", {})
        key = g.N.get_id()
        if key not in al:
            S = fresh("allpairs", TNDS)
            k = z3.Const(fresh_name("k"), sort(TND))
            al[key] = (S, z3.And(card(S, TND) >= 0, z3.ForAll([k], S[k] == z3.And(g.N[T_get(k, 0, TND)], z3.Or(T_get(k, 1, TND) == UP, T_get(k, 1, TND) == DOWN)), patterns=[S[k]])), g.N)
        c.st.assume(al[key][1])      # finitely many pairs (node, direction)
        return al[key][0]

    def at_exit(self, c):
        self.trails(c).least_reach(self.finished(c))

    @property
    def loops(self):
        def anc(c, cur=None, seen=None):
            g, t = GV(c, "self"), self.trails(c)
            q, a, v = c.lz("node_l_queue", TNL), c.lz("a", TNS), c.lz("node_l_visited", TFlag)
            y, p = nv("y", "p")
            qe = L_elems(q, TNL)
            vis = lambda x: z3.Select(D_val(v, TFlag), x)
            mine = lambda x: z3.Or(qe[x], a[x], x == cur) if cur is not None else z3.Or(qe[x], a[x])
            return [("queue has no duplicates and nothing finished", z3.And(L_dist(q, TNL), FA([y], z3.Not(z3.And(qe[y], a[y])), [z3.MultiPattern(qe[y], a[y])]))),
                    ("table covers the nodes", D_dom(v, TFlag) == g.N),
                    ("only ancestors", z3.And(ssub(qe, t.A, TNode), ssub(a, t.A, TNode), ssub(qe, g.N, TNode), ssub(a, g.N, TNode))),
                    ("marked are exactly the queued and finished", FA([y], z3.Implies(g.N[y], vis(y) == mine(y)), [vis(y), qe[y]])),
                    ("the conditioning set is queued or finished", FA([y], z3.Implies(t.Z[y], mine(y)), [t.Z[y]])),
                    ("parents of finished are queued or finished", FA([y, p], z3.Implies(z3.And(a[y], arc(g, p, y)), mine(p)), [z3.MultiPattern(a[y], g.rec(p, y))]))]

        def init(c):
            g = GV(c, "self")
            v = c.lz("node_l_visited", TFlag)
            y, = nv("y")
            vis = lambda x: z3.Select(D_val(v, TFlag), x)
            return [("table covers the nodes", D_dom(v, TFlag) == g.N),
                    ("marked are those seen", FA([y], z3.Implies(g.N[y], vis(y) == c.loop.seen[y]), [vis(y)]))]

        def anc_in(c):
            g, t = GV(c, "self"), self.trails(c)
            cur = c.lz("y", TNode)
            q, a = c.lz("node_l_queue", TNL), c.lz("a", TNS)
            x, = nv("x")
            return [("current node is an ancestor, not queued, not finished", z3.And(t.A[cur], g.N[cur], z3.Not(L_elems(q, TNL)[cur]), z3.Not(a[cur])))] + anc(c, cur) + [
                ("parents seen are queued or finished", FA([x], z3.Implies(c.loop.seen[x], z3.Or(L_elems(q, TNL)[x], a[x], x == cur)), [c.loop.seen[x]]))]

        def main(c, cur=None):
            g, t = GV(c, "self"), self.trails(c)
            Q, v, a = c.lz("node_direction_l_queue", TNDL), c.lz("node_direction_l_visited", TNDF), c.lz("a", TNS)
            qe = L_elems(Q, TNDL)
            vis = lambda k: z3.Select(D_val(v, TNDF), k)
            y, w = nv("y", "w")
            d, e = z3.Int(fresh_name("d")), z3.Int(fresh_name("e"))
            k = nd(y, d)
            isd = lambda d: z3.Or(d == UP, d == DOWN)
            done = lambda y, d: z3.And(isd(d), g.N[y], vis(nd(y, d)), z3.Not(qe[nd(y, d)])) if cur is None else \
                z3.And(isd(d), g.N[y], vis(nd(y, d)), z3.Not(qe[nd(y, d)]), nd(y, d) != cur)
            doned = lambda y, dd: done(y, z3.IntVal(dd))
            if cur is None:
                t.least_anc(a)
            return [("lemma: ancestors found exactly", a == t.A)] + [
                ("queue has no duplicates", L_dist(Q, TNDL)),
                ("table covers the nodes twice", FA([y, d], D_dom(v, TNDF)[k] == z3.And(g.N[y], isd(d)), [D_dom(v, TNDF)[k]])),
                ("queued are marked", FA([y, d], z3.Implies(qe[k], z3.And(g.N[y], isd(d), vis(k))), [qe[k]])),
                ("marked are reached", FA([y, d], z3.Implies(z3.And(g.N[y], isd(d), vis(k)), t.R[k]), [vis(k)])),
                ("the start is marked", z3.And(g.N[t.x], vis(nd(t.x, UP)))),
                ("up-steps of finished are marked", FA([y, w], z3.Implies(z3.And(arc(g, w, y), z3.Or(z3.And(doned(y, UP), z3.Not(t.Z[y])), z3.And(doned(y, DOWN), t.A[y]))), vis(nd(w, UP))), [g.rec(w, y)])),
                ("down-steps of finished are marked", FA([y, w], z3.Implies(z3.And(arc(g, y, w), z3.Or(doned(y, UP), doned(y, DOWN)), z3.Not(t.Z[y])), vis(nd(w, DOWN))), [g.rec(y, w)])),
                ("yielded are exactly the finished outside the conditioning set", FA([y], c.yielded.e[y] == z3.And(z3.Not(t.Z[y]), z3.Or(doned(y, UP), doned(y, DOWN),
                    *([] if cur is None else [y == T_get(cur, 0, TND)]))), [c.yielded.e[y]]))]

        def step(c):
            g, t = GV(c, "self"), self.trails(c)
            cn, cd = c.lz("y", TNode), c.lz("direction", TInt)
            cur = T_mk([cn, cd], TND)
            Q, v = c.lz("node_direction_l_queue", TNDL), c.lz("node_direction_l_visited", TNDF)
            v0 = c.lz("node_direction_l_visited", TNDF, c.loop.entry)
            Q0 = c.lz("node_direction_l_queue", TNDL, c.loop.entry)
            x, = nv("x")
            d = z3.Int(fresh_name("d"))
            k = z3.Const(fresh_name("k"), sort(TND))
            vis = lambda k: z3.Select(D_val(v, TNDF), k)
            way = DOWN if c.loop.it.e.eq(children(c, g, cn)) else UP
            return [("the current pair is reached and no longer queued", z3.And(t.R[cur], g.N[cn], z3.Or(cd == UP, cd == DOWN), vis(cur), z3.Not(L_elems(Q, TNDL)[cur]))),
                    ("nothing is unmarked", FA([k], z3.Implies(z3.Select(D_val(v0, TNDF), k), vis(k)), [vis(k), z3.Select(D_val(v0, TNDF), k)])),
                    ("no pair marked before is queued again", FA([k], z3.Implies(z3.And(L_elems(Q, TNDL)[k], z3.Select(D_val(v0, TNDF), k)), L_elems(Q0, TNDL)[k]), [L_elems(Q, TNDL)[k]])),
                    ("neighbours seen are marked", FA([x], z3.Implies(c.loop.seen[x], vis(nd(x, way))), [c.loop.seen[x]]))] + main(c, cur)
        return {(0,): init, (1,): anc, (1, 0): anc_in, (2,): main, (2, 0): step, (2, 1): step, (2, 2): step, (2, 3): step}

    def decreases_(self):
        def m1(c):
            return [card(GV(c, "self").N, TNode) - card(c.lz("a", TNS), TNode)]

        def m2(c):
            return [card(self.all_pairs(c), TND) - card(self.finished(c), TND)]
        return {(1,): m1, (2,): m2}
    decreases = property(decreases_)


@contract(D + "is_d_separate")
class _(TrailQuery):
    params = {"x": TNode, "y": TNode, "z": TNS}
    result_ty = TBool

    def ensures(self, c):
        return [("true exactly when no active trail arrives", c.val(c.result, TBool) == z3.Not(self.trails(c).reaches(c.z("y", TNode))))]
