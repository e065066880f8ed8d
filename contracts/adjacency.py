"""Contracts of cdmir.discovery.constraint.adjacency_search: the skeleton search of the PC family."""
from contracts.base import *
from contracts.graph import unchanged_nodes
from contracts.pdag import pr, TSep
from pyver.driver import fresh_object

A = "cdmir.discovery.constraint.adjacency_search."
TZs = register(TFSet(TNode))
# PVAL(u, v, Z): the p-value the test gives for the pair u, v and the conditioning set Z (whatever was asked before)
PVAL = z3.Function("pval", Node, Node, sort(TNS), z3.RealSort())
CLASSES["Oracle"] = {"__class__": "Oracle"}


@contract("Oracle.test", trusted=True)
class _(Contract):
    """a conditional-independence test: answers depend on the unordered pair and the set of conditioning variables alone"""
    arg_names = ("x", "y", "z")

    def result(self, eng, st, c):
        return PTup([V(TReal, PVAL(c.z("x", TNode), c.z("y", TNode), c.z("z", TZs))), NONE])

    def ensures(self, c):
        u, v, Z = nv("u", "v") + [z3.Const(fresh_name("Z"), sort(TNS))]
        return [("symmetric", FA([u, v, Z], PVAL(u, v, Z) == PVAL(v, u, Z), [PVAL(u, v, Z)]))]


def accepted(c, x, y, Z):
    return PVAL(x, y, Z) >= c.z("alpha", TReal)


class Search(Contract):
    params = {"indep_test": "Oracle", "independence": "Oracle", "var_names": TNL, "alpha": TReal, "verbose": TBool}
    dict_value_ty = TNS

    def requires(self, c):
        u, v, Z = nv("u", "v") + [z3.Const(fresh_name("Z"), sort(TNS))]
        return [("variable names are distinct", L_dist(c.z("var_names", TNL), TNL)),
                ("answers are symmetric in the pair", FA([u, v, Z], PVAL(u, v, Z) == PVAL(v, u, Z), [PVAL(u, v, Z)]))]

    # ---- vocabulary
    def names(self, c):
        return c.val(c.args["var_names"], TNL, c.old)

    def N(self, c):
        return L_elems(self.names(c), TNL)

    def justified(self, c, a, b, w=None):
        """some conditioning set of other variables (holding w) was accepted for the pair a, b"""
        Z = z3.Const(fresh_name("Z"), sort(TNS))
        return z3.Exists([Z], z3.And(ssub(Z, sdel(sdel(self.N(c), a), b), TNode), accepted(c, a, b, Z), Z[w] if w is not None else True), patterns=[PVAL(a, b, Z)])

    def rejected(self, c, g, a, b, upto, bound=lambda Z: z3.BoolVal(True)):
        """conditioning sets within the neighbours of a whose size satisfies upto are rejected for a, b"""
        Z = z3.Const(fresh_name("Z"), sort(TNS))
        x, = nv("x")
        return z3.ForAll([Z], z3.Implies(z3.And(FA([x], z3.Implies(Z[x], z3.And(g.rec(a, x), x != b)), [Z[x]]), upto(card(Z, TNode)), bound(Z)), z3.Not(accepted(c, a, b, Z))), patterns=[PVAL(a, b, Z)])

    def graph_ok(self, c, g):
        a, b = nv("a", "b")
        names = self.names(c)
        i = z3.Int(fresh_name("i"))
        return g.inv() + [("on the given variables in order", z3.And(g.N == L_elems(names, TNL), L_len(g.L, TNL) == L_len(names, TNL),
                                                                     z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(names, TNL)), L_arr(g.L, TNL)[i] == L_arr(names, TNL)[i])))),
                          ("undirected", FA([a, b], z3.Implies(g.conn(a, b), g.und(a, b)), [g.rec(a, b)]))]

    def record(self, c, s, gone):
        """what the separator record s says; gone(a, b): the pair is dropped (or about to be)"""
        a, b, w = nv("a", "b", "w")
        N = self.N(c)
        S = lambda a, b: z3.Select(D_val(s, TSep), pr(a, b))
        ok = lambda a, b: z3.And(N[a], N[b], a != b)
        return [("an entry for every ordered pair of variables", FA([a, b], D_dom(s, TSep)[pr(a, b)] == ok(a, b), [D_dom(s, TSep)[pr(a, b)]])),
                ("separators are the same in both orders", FA([a, b, w], z3.Implies(ok(a, b), S(a, b)[w] == S(b, a)[w]), [S(a, b)[w]])),
                ("separators do not contain the pair", FA([a, b, w], z3.Implies(z3.And(ok(a, b), S(a, b)[w]), z3.And(w != a, w != b, N[w])), [S(a, b)[w]])),
                ("separators are recorded only for dropped pairs", FA([a, b, w], z3.Implies(z3.And(ok(a, b), S(a, b)[w]), gone(a, b)), [S(a, b)[w]])),
                ("their members come from accepted sets", FA([a, b, w], z3.Implies(z3.And(ok(a, b), S(a, b)[w]), self.justified(c, a, b, w)), [S(a, b)[w]]))]

    def dropped_ok(self, c, g):
        a, b = nv("a", "b")
        N = self.N(c)
        return [("a dropped pair was accepted as independent given some set of other variables",
                 FA([a, b], z3.Implies(z3.And(N[a], N[b], a != b, z3.Not(g.rec(a, b))), self.justified(c, a, b)), [g.rec(a, b)]))]

    def kept_ok(self, c, g, upto):
        a, b = nv("a", "b")
        return [("a kept pair was rejected given every set of neighbours tried so far", FA([a, b], z3.Implies(g.conn(a, b), self.rejected(c, g, a, b, upto)), [g.rec(a, b)]))]

    def result(self, eng, st, c):
        return PTup([fresh_object(eng, st, "PDAG"), eng.havoc_value(st, TSep, "separators")])

    def ensures(self, c):
        r = c.result
        if not isinstance(r, PTup) or len(r.items) != 2 or not isinstance(r.items[0], ObjRef) or c.st.objs[r.items[0].oid].cls != "PDAG":
            return [("a partially directed graph and the separators are returned", z3.BoolVal(False))]
        g, s = GV(c, r.items[0]), c.val(r.items[1], TSep)
        n = L_len(self.names(c), TNL)
        return self.graph_ok(c, g) + self.dropped_ok(c, g) + self.kept_ok(c, g, lambda k: k <= n - 2) + self.record(c, s, lambda a, b: z3.Not(g.rec(a, b)))


@contract(A + "adjacency_search", cost=6, parts=4)
class _(Search):
    @property
    def loops(self):
        TRE = register(TList(TPair))

        def G(c):
            return GV(c, c.local("g"))

        def R(c):
            return L_elems(c.lz("remove_edges", TRE), TRE)

        def sizes(c):
            g, k = G(c), c.loop.idx
            return self.graph_ok(c, g) + self.dropped_ok(c, g) + self.kept_ok(c, g, lambda n: n < k) + self.record(c, c.lz("sep_set", TSep), lambda a, b: z3.Not(g.rec(a, b)))

        def tested(c, more):
            g, re, k = G(c), R(c), c.frames[0].idx
            a, b = nv("a", "b")
            return [("pairs to drop are adjacent and accepted", FA([a, b], z3.Implies(re[pr(a, b)], z3.And(g.conn(a, b), self.justified(c, a, b))), [re[pr(a, b)]])),
                    ("visited pairs that stay were rejected at this size", FA([a, b], z3.Implies(z3.And(c.frames[1].seen[pr(a, b)], g.conn(a, b), z3.Not(re[pr(a, b)])), self.rejected(c, g, a, b, lambda n: n == k)), [c.frames[1].seen[pr(a, b)], g.rec(a, b)]))] + \
                more + self.record(c, c.lz("sep_set", TSep), lambda a, b: z3.Or(z3.Not(g.rec(a, b)), re[pr(a, b)], re[pr(b, a)]))

        def pairs(c):
            return tested(c, [])

        def subsets(c):
            g, re = G(c), R(c)
            u, v = [T_get(c.frames[1].elem, i, TPair) for i in (0, 1)]
            Z = z3.Const(fresh_name("Z"), sort(TNS))
            return tested(c, [("sets seen were rejected unless the pair is to be dropped", z3.ForAll([Z], z3.Implies(z3.And(c.loop.seen[Z], accepted(c, u, v, Z)), re[pr(u, v)]), patterns=[PVAL(u, v, Z), c.loop.seen[Z]]))])

        def drop(c):
            g, re = G(c), R(c)
            o = GV(c, c.local("g"), c.loop.entry)
            a, b = nv("a", "b")
            return self.graph_ok(c, g) + [("dropped are the pairs visited", FA([a, b], z3.Implies(g.N[a], g.rec(a, b) == z3.And(o.rec(a, b), z3.Not(c.loop.seen[pr(a, b)]), z3.Not(c.loop.seen[pr(b, a)]))), [g.rec(a, b)]))]
        return {(0,): sizes, (0, 0): pairs, (0, 0, 0): subsets, (0, 1): drop}


@contract(A + "fast_adjacency_search", cost=6, parts=4)
class _(Search):
    @property
    def loops(self):
        def G(c):
            return GV(c, c.local("g"))

        def level(c, visited, gone):
            """visited(a, b): the pair was tested at this size"""
            g, k = G(c), c.frames[0].idx
            a, b = nv("a", "b")
            return self.graph_ok(c, g) + self.dropped_ok(c, g) + self.kept_ok(c, g, lambda n: n < k) + \
                [("visited pairs that stay were rejected at this size", FA([a, b], z3.Implies(z3.And(g.conn(a, b), visited(g, a, b)), z3.And(self.rejected(c, g, a, b, lambda n: n == k), self.rejected(c, g, b, a, lambda n: n == k))), [g.rec(a, b)]))] + \
                self.record(c, c.lz("sep_set", TSep), gone)

        dropped = lambda c: (lambda a, b: z3.Not(G(c).rec(a, b)))

        def sizes(c):
            return level(c, lambda g, a, b: z3.BoolVal(False), dropped(c))

        def before(g, a, b, i, j):
            x, y = g.idx(a), g.idx(b)
            lo, hi = z3.If(x < y, x, y), z3.If(x < y, y, x)
            return z3.Or(lo < i, z3.And(lo == i, hi < j))

        def rows(c):
            return level(c, lambda g, a, b: before(g, a, b, c.loop.idx, z3.IntVal(0)), dropped(c)) + [("row in range", z3.And(0 <= c.loop.idx, c.loop.idx <= L_len(G(c).L, TNL)))]

        def cols(c):
            i, j = c.frames[1].idx, c.loop.idx
            return level(c, lambda g, a, b: before(g, a, b, i, j), dropped(c)) + [("column in range", z3.And(i + 1 <= j, j <= L_len(G(c).L, TNL)))]

        def result(c, st=None):
            v = c.local("sep_result")
            if st is not None:
                c = Ctx(c.eng, st, c.old, c.args, frames=c.frames, scope=c.scope, ct=c.ct)
                v = c.local("sep_result")
            if v is NONE:
                return z3.BoolVal(True), None
            none, t = (v.isnone, v.val) if isinstance(v, OptV) else (z3.BoolVal(False), v)
            return none, [c.val(t.items[0], TNode), c.val(t.items[1], TNode), c.val(t.items[2], TNS)]

        def subsets(c):
            i, j = c.frames[1].idx, c.frames[2].idx
            u, v = c.lz("node_u", TNode), c.lz("node_v", TNode)
            none, r = result(c)
            none0, _ = result(c, c.loop.entry)
            s = c.lz("sep_set", TSep)
            Z, x = z3.Const(fresh_name("Z"), sort(TNS)), nv("x")[0]
            cur = lambda a, b: z3.Or(z3.And(a == u, b == v), z3.And(a == v, b == u))
            out = [("nothing found is forgotten", z3.Implies(none, none0)),
                   ("sets seen were rejected unless something was found", z3.ForAll([Z], z3.Implies(z3.And(c.loop.seen[Z], accepted(c, u, v, Z)), z3.Not(none)), patterns=[PVAL(u, v, Z), c.loop.seen[Z]]))]
            if r is not None:
                out += [("what was found is about this pair", z3.Implies(z3.Not(none), z3.And(r[0] == u, r[1] == v, self.justified(c, u, v)))),
                        ("what was found is recorded", z3.Implies(z3.Not(none), FA([x], z3.Implies(r[2][x], z3.Select(D_val(s, TSep), pr(u, v))[x]), [r[2][x]])))]
            return out + self.record(c, s, lambda a, b: z3.Or(z3.Not(G(c).rec(a, b)), z3.And(cur(a, b), z3.Not(none))))
        return {(0,): sizes, (0, 0): rows, (0, 0, 0): cols, (0, 0, 0, 0): subsets}
