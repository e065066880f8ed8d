"""Contracts of the cluster helpers (learning hierarchical structure)."""
from contracts.base import *
from contracts.digraph import def_set
from contracts.pdag import pr, TPS

U = "cdmir.discovery.funtional_based.LearningHierarchicalStructure.Utils."
TCl = TNL                      # a cluster
TCls = register(TList(TNL))    # a list of clusters
TDic = register(TDict(TNode, TNL))
TNodeSets = register(TList(TNS))

eqs = lambda a, b: a == b
sub = lambda a, b: ssub(a, b, TNode)
RELS = {"=": eqs, "<=": sub, "<": lambda a, b: z3.And(sub(a, b), a != b), ">=": lambda a, b: sub(b, a), ">": lambda a, b: z3.And(sub(b, a), a != b)}


def text(s):
    def f(eng, st, n):
        return PStr([s])
    f.__name__ = repr(s)
    return f


def el(c, name, ty=TNL):
    return L_elems(c.val(c.args[name], ty, c.old), ty)


class Contains(Contract):
    """whether some cluster of the list stands in the relation"""
    params = {"S1": TNL, "Sets": TCls}
    result_ty = TBool
    rel = None

    def relation(self, c):
        return self.rel

    def holds(self, c, i):
        return type(self).relation(self, c)(el(c, "S1"), L_elems(L_arr(c.val(c.args["Sets"], TCls, c.old), TCls)[i], TNL))

    def n(self, c):
        return L_len(c.val(c.args["Sets"], TCls, c.old), TCls)

    def some(self, c):
        i = z3.Int(fresh_name("i"))
        return z3.Exists([i], z3.And(0 <= i, i < self.n(c), self.holds(c, i)))

    def ensures(self, c):
        return [("true exactly when some cluster of the list stands in the relation", c.val(c.result, TBool) == self.some(c))]

    @property
    def loops(self):
        def f(c):
            i = z3.Int(fresh_name("i"))
            s = c.val(c.args["Sets"], TCls, c.old)
            return [("none of the visited clusters does", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.loop.idx), z3.Not(self.holds(c, i))), patterns=[L_arr(s, TCls)[i]])),
                    ("position in range", z3.And(0 <= c.loop.idx, c.loop.idx <= self.n(c)))]
        return {(0,): f}


for _n, _r in (("GeneralSetContains", "="), ("GeneralSetCover", "<="), ("GeneralSetStrictCover", "<")):
    contract(U + _n)(type(_n, (Contains,), {"rel": staticmethod(RELS[_r])}))


@contract(U + "GeneralSetOperator")
class _(Contains):
    variants = tuple({"Operator": text(o)} for o in (">", ">=", "=", "<", "<=", "<>"))

    def relation(self, c):
        return RELS.get(c.args["Operator"].parts[0], lambda a, b: z3.BoolVal(False))


class Lookup(Contract):
    params = {"S1": TNL, "Dic": TDic}

    def dic(self, c):
        d = c.val(c.args["Dic"], TDic, c.old)
        return D_dom(d, TDic), D_val(d, TDic)

    def same(self, c, k):
        dom, val = self.dic(c)
        return z3.And(dom[k], el(c, "S1") == L_elems(val[k], TNL))

    def some(self, c):
        k, = nv("k")
        return z3.Exists([k], self.same(c, k))

    @property
    def loops(self):
        def f(c):
            k, = nv("k")
            dom, val = self.dic(c)
            return [("none of the visited entries has that content", FA([k], z3.Implies(c.loop.seen[k], z3.Not(self.same(c, k))), [c.loop.seen[k]]))]
        return {(0,): f}


@contract(U + "GeneralDicContains")
class _(Lookup):
    result_ty = TBool

    def ensures(self, c):
        return [("true exactly when some entry has that content", c.val(c.result, TBool) == self.some(c))]


@contract(U + "GetEarlyLearningByDic")
class _(Lookup):
    def callable_with(self, eng, st, bound):
        return False

    def ensures(self, c):
        if isinstance(c.result, PStr):
            return [("the empty text is returned only when no entry has that content", z3.And(z3.BoolVal(list(c.result.parts) in ([], [""])), z3.Not(self.some(c))))]
        return [("an index whose cluster has that content is returned", self.same(c, c.val(c.result, TNode)))]


@contract(U + "ExtendList")
class _(Contract):
    params = {"AllCausalCluster": TCls, "Current_Clusters": TCls}

    def modifies(self, c):
        return [c.args["AllCausalCluster"]]

    def lists(self, c):
        return c.val(c.args["AllCausalCluster"], TCls, c.old), c.val(c.args["Current_Clusters"], TCls, c.old), c.val(c.args["AllCausalCluster"], TCls, c.st)

    def state(self, c, upto):
        old, new, now = self.lists(c)
        n0, n = L_len(old, TCls), L_len(now, TCls)
        at = lambda l, i: L_arr(l, TCls)[i]
        S = lambda l, i: L_elems(L_arr(l, TCls)[i], TNL)
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        return [("nothing is removed", n >= n0),
                ("what was there stays, in order", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), at(now, i) == at(old, i)), patterns=[at(now, i)])),
                ("every cluster to add is there as a set", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), z3.Exists([i], z3.And(0 <= i, i < n, S(now, i) == S(new, j)), patterns=[at(now, i)])), patterns=[at(new, j)])),
                ("what is added is one of them", z3.ForAll([i], z3.Implies(z3.And(n0 <= i, i < n), z3.Exists([j], z3.And(0 <= j, j < upto, at(now, i) == at(new, j)), patterns=[at(new, j)])), patterns=[at(now, i)])),
                ("what is added was not there as a set", z3.ForAll([i, j], z3.Implies(z3.And(n0 <= i, i < n, 0 <= j, j < i), S(now, i) != S(now, j)), patterns=[z3.MultiPattern(at(now, i), at(now, j))]))]

    def ensures(self, c):
        r = c.result
        return [("the extended list itself is returned", z3.BoolVal(isinstance(r, Ref) and r.cid == c.args["AllCausalCluster"].cid and not r.path))] + self.state(c, L_len(self.lists(c)[1], TCls))

    @property
    def loops(self):
        return {(0,): lambda c: self.state(c, c.loop.idx) + [("position in range", z3.And(0 <= c.loop.idx, c.loop.idx <= L_len(self.lists(c)[1], TCls)))]}


# ------------------------------------------------------------------ merging overlapping clusters
O = "cdmir.discovery.funtional_based.LearningHierarchicalStructure.Overlap_Merge."
TIP = register(TTup(TInt, TInt))
TIL, TIS = register(TList(TInt)), register(TSet(TInt))
TIPL = register(TList(TIP))
TIG = register(TDict(TInt, TIS))
TISS = register(TSet(TIS))
ip = lambda a, b: T_mk([a, b], TIP)


def FAW(vs, body, pats):
    """for all, of use on what is asked about only: not on what follows from what follows"""
    return z3.ForAll(vs, body, patterns=pats, weight=4)


def iv(*names):
    return [z3.Int(fresh_name(n)) for n in names]


@contract(O + "graph")
class _(Contract):
    params = {"edge_list": TIPL}
    result_ty = TIG
    dict_value_ty = TIS

    def links(self, c, d, has):
        a, b = iv("a", "b")
        N = lambda a, b: z3.And(D_dom(d, TIG)[a], D_val(d, TIG)[a][b])
        return [finite_graph(d), ("two numbers are neighbours exactly when an edge joins them", FA([a, b], N(a, b) == z3.Or(has(a, b), has(b, a)), [D_val(d, TIG)[a][b]])),
                ("every entry has a neighbour", FA([a], z3.Implies(D_dom(d, TIG)[a], z3.Exists([b], z3.Or(has(a, b), has(b, a)))), [D_dom(d, TIG)[a]])),
                ("both ends of an edge have an entry", FA([a, b], z3.Implies(has(a, b), z3.And(D_dom(d, TIG)[a], D_dom(d, TIG)[b]))))]

    def ensures(self, c):
        E = L_elems(c.val(c.args["edge_list"], TIPL, c.old), TIPL)
        return self.links(c, c.val(c.result, TIG), lambda a, b: E[ip(a, b)])

    @property
    def loops(self):
        return {(0,): lambda c: self.links(c, c.lz("result", TIG), lambda a, b: c.loop.seen[ip(a, b)])}


def comp(c, d):
    """per start, the least set that holds the start and is closed under the neighbours recorded in d (an inductive definition:
    holding the start and closed; contained in every such set, of which instances are assumed where named)"""
    cache = c.eng.__dict__.setdefault("comps", {})
    key = d.get_id()
    if key not in cache:
        M = z3.Const(fresh_name("COMP"), z3.ArraySort(z3.IntSort(), sort(TIS)))
        s, x, y = iv("s", "x", "y")
        dom, val = D_dom(d, TIG), D_val(d, TIG)
        cache[key] = (M, [FA([s], M[s][s], [M[s]]), FA([s, x, y], z3.Implies(z3.And(M[s][x], val[x][y]), M[s][y]), [z3.MultiPattern(M[s][x], val[x][y])])], d)
    M, axs, _ = cache[key]
    for ax in axs:
        if not any(f is ax for f in c.st.facts):
            c.st.assume(ax)
    return M


def least(c, d, s, P):
    """P holds s and is closed, so it holds all of COMP[s]"""
    x, y = iv("x", "y")
    v = D_val(d, TIG)
    M = comp(c, d)
    c.st.assume(z3.Implies(z3.And(P[s], FA([x, y], z3.Implies(z3.And(P[x], v[x][y]), P[y]))), FA([x], z3.Implies(M[s][x], P[x]), [M[s][x]])))


def closed_graph(c, d):
    x, y = iv("x", "y")
    dom, val = D_dom(d, TIG), D_val(d, TIG)
    return ("every neighbour has an entry", FA([x, y], z3.Implies(z3.And(dom[x], val[x][y]), dom[y]), [val[x][y]]))


def finite_graph(d):
    return ("the entries are finitely many", card(D_dom(d, TIG), TInt) >= 0)


@contract(O + "bfs")
class _(Contract):
    params = {"graph": TIG, "start": TInt}
    result_ty = TIS

    def g(self, c):
        return c.val(c.args["graph"], TIG, c.old)

    def requires(self, c):
        return [closed_graph(c, self.g(c)), finite_graph(self.g(c)), ("the start has an entry", D_dom(self.g(c), TIG)[c.z("start", TInt)])]

    def ensures(self, c):
        r, C = c.val(c.result, TIS), comp(c, self.g(c))[c.z("start", TInt)]
        x, = iv("x")
        return [("exactly what can be reached from the start", FA([x], r[x] == C[x], [r[x], C[x]])), ("as a set", r == C)]

    def at_exit(self, c):
        least(c, self.g(c), c.z("start", TInt), c.val(c.result, TIS))
        least(c, self.g(c), c.z("start", TInt), D_dom(self.g(c), TIG))

    @property
    def loops(self):
        def f(c):
            v, q = c.lz("visited", TIS), L_elems(c.lz("queue", TIL), TIL)
            s, d = c.z("start", TInt), self.g(c)
            C = comp(c, d)[s]
            x, y = iv("x", "y")
            return [("visited things are reachable and have an entry", FA([x], z3.Implies(v[x], z3.And(C[x], D_dom(d, TIG)[x])), [v[x]])),
                    ("visited things are counted", z3.And(ssub(v, D_dom(d, TIG), TInt), card(v, TInt) <= card(D_dom(d, TIG), TInt))),
                    ("waiting things are reachable and have an entry", FA([x], z3.Implies(q[x], z3.And(C[x], D_dom(d, TIG)[x])), [q[x]])),
                    ("the start is visited or waits", z3.Or(v[s], q[s])),
                    ("neighbours of visited things are visited or wait", FA([x, y], z3.Implies(z3.And(v[x], D_val(d, TIG)[x][y]), z3.Or(v[y], q[y])), [z3.MultiPattern(v[x], D_val(d, TIG)[x][y])]))]
        return {(0,): f}

    @property
    def decreases(self):
        return {(0,): lambda c: [card(D_dom(self.g(c), TIG), TInt) - card(c.lz("visited", TIS), TInt), L_len(c.lz("queue", TIL), TIL)]}


def once(c, key, make):
    """assume what make() collects, the same terms every time"""
    memo = c.eng.__dict__.setdefault("lhm_once", {})
    if key not in memo:
        memo[key] = list(make())
    for a in memo[key]:
        if not any(f is a for f in c.st.facts):
            c.st.assume(a)


def lemmas(c, d):
    once(c, ("lemmas", d.get_id()), lambda: lemma_list(c, d))


def lemma_list(c, d):
    """further instances of 'contained in every closed set that holds the start': the sets COMP[s], and {x in COMP[s]: s in COMP[x]}"""
    s, t, x, y, z = iv("s", "t", "x", "y", "z")
    M, v = comp(c, d), D_val(d, TIG)
    yield (FA([s, t, x], z3.Implies(z3.And(M[s][t], M[t][x]), M[s][x]), [z3.MultiPattern(M[s][t], M[t][x])]))
    dom = D_dom(d, TIG)      # the set of entries is closed
    yield (z3.Implies(FA([y, z], z3.Implies(z3.And(dom[y], v[y][z]), dom[z]), [v[y][z]]), FA([s, x], z3.Implies(z3.And(dom[s], M[s][x]), dom[x]), [M[s][x]])))
    back = FA([y, z], z3.Implies(z3.And(M[s][y], M[y][s], v[y][z]), z3.And(M[s][z], M[z][s])), [z3.MultiPattern(M[s][y], v[y][z])])
    yield (FA([s, x], z3.Implies(z3.And(back, M[s][x]), M[x][s]), [M[s][x]]))


def symmetric_graph(d):
    x, y = iv("x", "y")
    dom, val = D_dom(d, TIG), D_val(d, TIG)
    nb = lambda x, y: z3.And(dom[x], val[x][y])
    return ("neighbours are mutual", FA([x, y], z3.Implies(nb(x, y), nb(y, x)), [val[x][y]]))


WHO = z3.Function("cluster", z3.IntSort(), z3.BoolSort())
TAG = z3.Function("position", z3.IntSort(), z3.BoolSort())      # all three hold of all positions; only there to point the prover at some
GOAL = z3.Function("asked", z3.IntSort(), z3.BoolSort())


@contract(O + "connected_components")
class _(Contract):
    params = {"G": TIG}

    def g(self, c):
        return c.val(c.args["G"], TIG, c.old)

    def requires(self, c):
        d = self.g(c)
        return [closed_graph(c, d), finite_graph(d), symmetric_graph(d)]

    def gen_facts(self, c):
        """what a caller may use besides the components it is given"""
        d = self.g(c)
        M, dom = comp(c, d), D_dom(d, TIG)
        x, y, s = iv("x", "y", "s")
        return [("connected things are entries", FA([s, x], z3.Implies(z3.And(dom[s], M[s][x]), dom[x]), [M[s][x]])),
                ("neighbours are one step away", FA([x, y], z3.Implies(z3.And(dom[x], D_val(d, TIG)[x][y]), z3.And(M[x][y], M[y][x])), [D_val(d, TIG)[x][y]])),
                ("being connected is mutual", FA([s, x], z3.Implies(z3.And(dom[s], M[s][x]), M[x][s]), [M[s][x]])),
                ("connected entries have one component", FA([s, x], z3.Implies(z3.And(dom[s], M[s][x]), M[x] == M[s]), [M[s][x]]))]

    def ensures(self, c):
        return self.gen_facts(c)

    def groups(self, c, of):
        """the components of the entries that satisfy of"""
        M = comp(c, self.g(c))
        S = fresh("groups", TISS)
        x, = iv("x")
        e = z3.Const(fresh_name("e"), sort(TIS))
        REP = z3.Function(fresh_name("REP"), sort(TIS), z3.IntSort())      # some entry of a component
        c.st.assume(z3.ForAll([e], S[e] == z3.And(of(REP(e)), e == M[REP(e)]), patterns=[S[e]]))
        c.st.assume(z3.ForAll([e], WHO(REP(e)), patterns=[REP(e)]))
        c.st.assume(FA([x], z3.Implies(of(x), S[M[x]]), [M[x]]))
        return S

    def yields(self, c):
        return "set", self.groups(c, lambda x: D_dom(self.g(c), TIG)[x]), TIS

    @property
    def loops(self):
        def f(c):
            d = self.g(c)
            M, dom = comp(c, d), D_dom(d, TIG)
            lemmas(c, d)
            x, y, s = iv("x", "y", "s")
            e = z3.Const(fresh_name("e"), sort(TIS))
            seen, out = c.lz("seen", TIS), c.yielded.e
            return [("lemma: " + l, f) for l, f in self.gen_facts(c)] + [
                    ("listed are components of visited entries", z3.ForAll([e], z3.Implies(out[e], z3.Exists([x], z3.And(c.loop.seen[x], dom[x], e == M[x]), patterns=[M[x]])), patterns=[out[e]])),
                    ("the component of a visited entry is listed", FA([x], z3.Implies(c.loop.seen[x], out[M[x]]), [c.loop.seen[x]])),
                    ("what is noted as seen is in a listed component", FA([x], seen[x] == z3.Exists([s], z3.And(c.loop.seen[s], M[s][x]), patterns=[M[s][x]]), [seen[x]])),
                    ("listed components are noted", FA([s, x], z3.Implies(z3.And(c.loop.seen[s], M[s][x]), seen[x]), [z3.MultiPattern(c.loop.seen[s], M[s][x])]))]
        return {(0,): f}


TIA = z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.BoolSort()))
UA = z3.ArraySort(z3.IntSort(), z3.ArraySort(Node, z3.BoolSort()))


@contract(O + "merge_list", cost=4, parts=2)
class _(Contract):
    params = {"L2": TCls}
    result_ty = TCls

    def L(self, c):
        return c.val(c.args["L2"], TCls, c.old)

    def n(self, c):
        return L_len(self.L(c), TCls)

    def S(self, c, i):
        return L_elems(L_arr(self.L(c), TCls)[i], TNL)

    def rng(self, c, i):
        return z3.And(0 <= i, i < self.n(c))

    def spec(self, c):
        """OV[i][j]: clusters i and j overlap; LINK[i]: what is linked to i directly or through others (inductive definition);
        UN[i]: the union of the clusters linked to i"""
        memo = c.eng.__dict__.setdefault("lhm_spec", {})
        key = self.L(c).get_id()
        if key not in memo:
            OV, LINK = z3.Const(fresh_name("OV"), TIA), z3.Const(fresh_name("LINK"), TIA)
            UN = z3.Const(fresh_name("UN"), UA)
            i, j, k = iv("i", "j", "k")
            x, = nv("x")
            ONE = z3.Function(fresh_name("ONE"), TIA.range(), Node, z3.IntSort())
            both = z3.Exists([x], z3.And(self.S(c, i)[x], self.S(c, j)[x]))
            axs = [FA([i, j], OV[i][j] == z3.And(self.rng(c, i), self.rng(c, j), i != j, both), [OV[i][j]]),
                   FA([i, j, x], z3.Implies(z3.And(self.rng(c, i), self.rng(c, j), i != j, self.S(c, i)[x], self.S(c, j)[x]), OV[i][j]), [z3.MultiPattern(self.S(c, i)[x], self.S(c, j)[x])]),
                   FA([i], LINK[i][i], [LINK[i]]), FA([i, j, k], z3.Implies(z3.And(LINK[i][j], OV[j][k]), LINK[i][k]), [z3.MultiPattern(LINK[i][j], OV[j][k])]),
                   # contained in every closed set: the singleton of a cluster that overlaps none
                   FA([i], z3.Implies(FA([j], z3.Not(OV[i][j]), [OV[i][j]]), FA([k], z3.Implies(LINK[i][k], k == i), [LINK[i][k]])), [LINK[i]]),
                   # ONE(Z, x): the number in Z of a cluster with x, if there is one
                   FA([i, x], z3.Implies(UN[i][x], z3.And(LINK[i][ONE(LINK[i], x)], self.S(c, ONE(LINK[i], x))[x])), [UN[i][x]]),
                   FA([i, j, x], z3.Implies(z3.And(LINK[i][j], self.S(c, j)[x]), UN[i][x]), [z3.MultiPattern(LINK[i][j], self.S(c, j)[x])])]
            axs.append(FA([i, x], z3.Implies(self.S(c, i)[x], UN[i][x]), [UN[i][x]]))      # as LINK[i][i]
            memo[key] = (OV, LINK, UN, axs)
        OV, LINK, UN, axs = memo[key]
        for a in axs:
            if not any(f is a for f in c.st.facts):
                c.st.assume(a)
        return OV, LINK, UN

    def same_links(self, c, d):
        once(c, ("same", d.get_id()), lambda: self.same_list(c, d))

    def same_list(self, c, d):
        """the components of the recorded graph d are the linked clusters (both are least closed sets)"""
        OV, LINK, UN = self.spec(c)
        M, v, dom = comp(c, d), D_val(d, TIG), D_dom(d, TIG)
        s, x, y = iv("s", "x", "y")
        yield (FA([s], z3.Implies(FA([x, y], z3.Implies(z3.And(M[s][x], OV[x][y]), M[s][y]), [z3.MultiPattern(M[s][x], OV[x][y])]), FA([x], z3.Implies(LINK[s][x], M[s][x]), [LINK[s][x]])), [M[s]]))
        yield (FA([s], z3.Implies(FA([x, y], z3.Implies(z3.And(LINK[s][x], v[x][y]), LINK[s][y]), [z3.MultiPattern(LINK[s][x], v[x][y])]), FA([x], z3.Implies(M[s][x], LINK[s][x]), [M[s][x]])), [M[s]]))

    def ensures(self, c):
        k, = iv("k")
        once(c, "tag", lambda: [FA([k], TAG(k), [TAG(k)]), FA([k], WHO(k), [WHO(k)]), FA([k], GOAL(k), [GOAL(k)])])
        OV, LINK, UN = self.spec(c)
        r = c.val(c.result, TCls)
        m = L_len(r, TCls)
        G = lambda k: L_elems(L_arr(r, TCls)[k], TNL)
        i, k, l = iv("i", "k", "l")
        x, = nv("x")
        return [("every group is the union of linked clusters", FA([k], z3.Implies(z3.And(GOAL(k), 0 <= k, k < m), z3.Exists([i], z3.And(WHO(i), self.rng(c, i), G(k) == UN[i]), patterns=[WHO(i)])), [L_arr(r, TCls)[k]])),
                ("every member of a cluster is in a group", FA([i, x], z3.Implies(z3.And(GOAL(i), self.rng(c, i), self.S(c, i)[x]), z3.Exists([k], z3.And(TAG(k), 0 <= k, k < m, G(k)[x]), patterns=[TAG(k)])), [z3.MultiPattern(GOAL(i), self.S(c, i)[x])])),
                ("the groups are pairwise disjoint", FA([k, l, x], z3.Implies(z3.And(GOAL(k), GOAL(l), 0 <= k, k < l, l < m), z3.Not(z3.And(G(k)[x], G(l)[x]))), [z3.MultiPattern(G(k)[x], G(l)[x])]))]

    def at_exit(self, c):
        u, r = c.lz("unassigned", TIL), c.val(c.result, TCls)
        i, k = iv("i", "k")
        once(c, "tag", lambda: [FA([k], TAG(k), [TAG(k)]), FA([k], WHO(k), [WHO(k)]), FA([k], GOAL(k), [GOAL(k)])])
        c.st.assume(FA([i], TAG(L_len(r, TCls) - L_len(u, TIL) + L_idx(u, i, TIL)), [GOAL(i)]))
        c.st.assume(FA([k], WHO(L_arr(u, TIL)[k - (L_len(r, TCls) - L_len(u, TIL))]), [GOAL(k)]))

    @property
    def loops(self):
        def pairs(c):
            OV, LINK, UN = self.spec(c)
            E = L_elems(c.lz("edges", TIPL), TIPL)
            a, b = iv("a", "b")
            return [("edges join the overlapping pairs visited", FA([a, b], E[ip(a, b)] == z3.And(c.loop.seen[ip(a, b)], OV[a][b]), [E[ip(a, b)]]))]

        def groups(c):
            OV, LINK, UN = self.spec(c)
            d = c.lz("G", TIG)
            M, dom, v = comp(c, d), D_dom(d, TIG), D_val(d, TIG)
            self.same_links(c, d)
            u, r = c.lz("unassigned", TIL), c.lz("result", TCls)
            uel, m = L_elems(u, TIL), L_len(r, TCls)
            G = lambda k: L_elems(L_arr(r, TCls)[k], TNL)
            i, j, k, l = iv("i", "j", "k", "l")
            x, = nv("x")
            seen = c.loop.seen
            once(c, "tag", lambda: [FA([k], TAG(k), [TAG(k)]), FA([k], WHO(k), [WHO(k)]), FA([k], GOAL(k), [GOAL(k)])])
            c.st.assume(TAG(m - 1))
            return [("lemma: neighbours are overlapping clusters", FA([i, j], z3.And(dom[i], v[i][j]) == OV[i][j], [OV[i][j], v[i][j]])),
                    ("lemma: entries are clusters", FA([i], z3.Implies(dom[i], self.rng(c, i)), [dom[i]])),
                    ("lemma: components are the linked clusters", FA([i], z3.Implies(dom[i], M[i] == LINK[i]), [dom[i], M[i]])),
                    ("lemma: other clusters are linked to themselves alone", FA([i, j], z3.Implies(z3.And(self.rng(c, i), z3.Not(dom[i]), LINK[i][j]), j == i), [z3.MultiPattern(dom[i], LINK[i][j])])),
                    ("lemma: other clusters are all that is in their union", FA([i, x], z3.Implies(z3.And(self.rng(c, i), z3.Not(dom[i]), UN[i][x]), self.S(c, i)[x]), [z3.MultiPattern(dom[i], UN[i][x])])),
                    ("lemma: other clusters are their own union", FA([i], z3.Implies(z3.And(self.rng(c, i), z3.Not(dom[i])), UN[i] == self.S(c, i)), [dom[i]])),
                    ("lemma: links are mutual", FA([i, j], z3.Implies(z3.And(self.rng(c, i), LINK[i][j]), z3.And(self.rng(c, j), LINK[j] == LINK[i])), [LINK[i][j]])),
                    ("lemma: unions with a common member", FA([i, j, x], z3.Implies(z3.And(self.rng(c, i), self.rng(c, j), UN[i][x], UN[j][x]), LINK[i][j]), [z3.MultiPattern(UN[i][x], UN[j][x])])),
                    ("unassigned are listed once", L_dist(u, TIL)),
                    ("unassigned are the clusters of no visited group", z3.And(FA([i], uel[i] == z3.And(self.rng(c, i), z3.Not(z3.And(dom[i], seen[M[i]]))), [uel[i]]))),
                    ("the groups so far", FAW([k], z3.Implies(z3.And(GOAL(k), 0 <= k, k < m), z3.Exists([i], z3.And(WHO(i), dom[i], seen[M[i]], G(k) == UN[i]), patterns=[WHO(i)])), [GOAL(k)])),
                    ("members of visited clusters are listed", FAW([i, x], z3.Implies(z3.And(GOAL(i), dom[i], seen[M[i]], self.S(c, i)[x]), z3.Exists([k], z3.And(TAG(k), 0 <= k, k < m, G(k)[x]), patterns=[TAG(k)])), [z3.MultiPattern(GOAL(i), self.S(c, i)[x])])),
                    ("the groups so far meet no other union", FAW([i, k, x], z3.Implies(z3.And(GOAL(k), 0 <= k, k < m, dom[i], z3.Not(seen[M[i]]), G(k)[x]), z3.Not(UN[i][x])), [z3.MultiPattern(G(k)[x], UN[i][x])])),
                    ("the groups so far are disjoint", FAW([k, l, x], z3.Implies(z3.And(GOAL(k), GOAL(l), 0 <= k, k < l, l < m), z3.Not(z3.And(G(k)[x], G(l)[x]))), [z3.MultiPattern(G(k)[x], G(l)[x])]))]
        return {(0,): pairs, (1,): groups}
