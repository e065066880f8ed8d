"""Contracts of the graph comparison metrics: equality and structural distance."""
from contracts.base import *
from contracts.pdag import pr
from contracts.digraph import def_set

M = "cdmir.utils.metrics.graph_evaluation."
KINDS = ("Graph", "DiGraph", "PDAG")


class Compare(Contract):
    first, second = None, None
    variants = tuple({"a": x, "b": y} for x in KINDS for y in KINDS)

    def variant_name(self, v):
        return "%s, %s" % (v["a"], v["b"])

    def callable_with(self, eng, st, bound):
        return False

    def gr(self, c, st=None):
        return GV(c, self.first, st), GV(c, self.second, st)

    def requires(self, c):
        g, h = self.gr(c)
        return g.inv() + h.inv() + [("an edge's mark is tail, arrow or circle: graph %d" % k, self.marks(x)) for k, x in ((1, g), (2, h))]

    def marks(self, g):
        a, b = nv("a", "b")
        return FA([a, b], z3.Implies(g.conn(a, b), z3.Or(g.mk(a, b) == TAIL, g.mk(a, b) == ARROW, g.mk(a, b) == CIRCLE)), [g.rec(a, b)])

    def differ(self, g, h, a, b):
        """the edge between a and b differs: present in one graph alone, or other marks"""
        return z3.Or(g.conn(a, b) != h.conn(a, b), z3.And(g.conn(a, b), z3.Or(g.mk(a, b) != h.mk(a, b), g.mk(b, a) != h.mk(b, a))))

    def raises(self, c):
        g, h = self.gr(c, c.old)
        return {"AssertionError": z3.Or(z3.BoolVal(g.cls != h.cls), z3.Not(g.seq_eq(h)))}



@contract(M + "graph_equal")
class _(Compare):
    first, second = "true_graph", "est_graph"
    variants = tuple({"true_graph": x, "est_graph": y} for x in KINDS for y in KINDS)

    def variant_name(self, v):
        return "%s, %s" % (v["true_graph"], v["est_graph"])

    def ensures(self, c):
        g, h = self.gr(c, c.old)
        a, b = nv("a", "b")
        r = c.val(c.result, TBool)
        return [("equal only if every pair has the same edge", z3.Implies(r, FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]), z3.Not(self.differ(g, h, a, b)))))),
                ("equal if every pair has the same edge", z3.Implies(FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]), z3.Not(self.differ(g, h, a, b)))), r))]


@contract(M + "shd")
class _(Compare):
    first, second = "true_pdag", "est_pdag"
    variants = tuple({"true_pdag": x, "est_pdag": y} for x in KINDS for y in KINDS)

    def variant_name(self, v):
        return "%s, %s" % (v["true_pdag"], v["est_pdag"])

    def ensures(self, c):
        g, h = self.gr(c, c.old)
        a, b = nv("a", "b")
        S = fresh("differing", TSet(TPair))
        D = lambda a, b: z3.And(g.N[a], g.N[b], g.idx(a) < g.idx(b), self.differ(g, h, a, b))
        c.st.assume(FA([a, b], S[pr(a, b)] == D(a, b), [S[pr(a, b)]]))
        p = z3.Const(fresh_name("p"), sort(TPair))
        r = c.val(c.result, TInt)
        return [("a difference is one whichever graph comes first", FA([a, b], self.differ(g, h, a, b) == self.differ(h, g, a, b))),
                ("counts exactly the pairs whose edges differ", r == card(S, TPair)),
                ("lemma: every difference is counted", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b], self.differ(g, h, a, b)), z3.Or(S[pr(a, b)], S[pr(b, a)])), [g.rec(a, b), h.rec(a, b)])),
                ("lemma: what is counted are differences", FA([a, b], z3.Implies(S[pr(a, b)], z3.And(g.N[a], g.N[b], self.differ(g, h, a, b))), [S[pr(a, b)]])),
                ("lemma: nothing counted", z3.Implies(r == 0, S == empty_set(TPair))),
                ("zero when no pair differs", z3.Implies(FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]), z3.Not(self.differ(g, h, a, b)))), r == 0)),
                ("zero only when no pair differs", z3.Implies(r == 0, FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b]), z3.Not(self.differ(g, h, a, b))))))]
