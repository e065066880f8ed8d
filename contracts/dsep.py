"""Contract of the d-separation oracle: the test whose answer is read off a true graph."""
from contracts.base import *
from contracts.digraph import Trails, def_set, once, none
from contracts.caches import members, consumed, TIL, TIS, TIF, COLL, Named, TAns
from pyver.driver import fresh_object

CLASSES["Dsep"] = {"__class__": "cdmir.utils.independence.dsep.Dsep", "var_names": TNL, "true_graph": lambda eng, st, f: fresh_object(eng, st, "DiGraph")}
DS = "cdmir.utils.independence.dsep.Dsep."


@contract(DS + "cal_stats", comp_members=True)
class _(Named):
    receivers = ("Dsep",)
    params = {"x_id": TInt, "y_id": TInt}
    variants = COLL(TIL, TIS, TIF)

    def graph(self, c):
        return GV(c, c.old.objs[c.args["self"].oid].fields["true_graph"], c.old)

    def names(self, c):
        return c.eng.to_z3(c.old, c.old.objs[c.args["self"].oid].fields["var_names"], TNL)

    def ids(self, c):
        v = c.args["z_ids"]
        return None if v is NONE else members(c, v, TInt, TIS)

    def Z(self, c):
        I, n = self.ids(c), self.names(c)
        if I is None:
            return empty_set(TNode)
        key = ("dsepZ", I.get_id(), n.get_id())
        memo = c.eng.__dict__.setdefault("dsep_sets", {})
        if key not in memo:
            S = fresh("given", TNS)
            i, (u,) = z3.Int(fresh_name("i")), nv("u")
            memo[key] = (S, z3.ForAll([u], S[u] == z3.Exists([i], z3.And(I[i], L_arr(n, TNL)[i] == u)), patterns=[S[u]]),
                         z3.ForAll([i], z3.Implies(I[i], S[L_arr(n, TNL)[i]]), patterns=[I[i]]), I, n)
        for f in memo[key][1:3]:
            c.st.assume(f)
        return memo[key][0]

    def requires(self, c):
        g, n = self.graph(c), self.names(c)
        i = z3.Int(fresh_name("i"))
        ok = lambda e: z3.And(0 <= e, e < L_len(n, TNL))
        out = g.inv() + [("the variables are the graph's nodes", ssub(L_elems(n, TNL), g.N, TNode)),
                         ("the pair is in range", z3.And(ok(c.z("x_id", TInt)), ok(c.z("y_id", TInt))))]
        I = self.ids(c)
        if I is not None:
            out.append(("the conditioning variables are in range", z3.ForAll([i], z3.Implies(I[i], ok(i)), patterns=[I[i]])))
        return out

    def modifies(self, c):
        return consumed(c, c.args["z_ids"])

    @property
    def before_call(self):
        def same(c, bound):
            got = members(Ctx(c.eng, c.st, c.st, bound), bound["z"], TNode, TNS)
            Z = self.Z(c)
            u, = nv("u")
            return [("the graph is asked about members only", FA([u], z3.Implies(got[u], Z[u]))),
                    ("the graph is asked about every member", FA([u], z3.Implies(Z[u], got[u]))),
                    ("the graph is asked about the conditioning variables", got == Z)]
        return {"cdmir.graph.digraph.DiGraph.is_d_separate": same}

    def ensures(self, c):
        g, n = self.graph(c), self.names(c)
        name = lambda k: L_arr(n, TNL)[c.z(k, TInt)]
        t = Trails(c, g, name("x_id"), self.Z(c))
        sep = z3.Not(t.reaches(name("y_id")))
        if not (isinstance(c.result, PTup) and len(c.result.items) == 2):
            return [("a pair of p-value and statistic", z3.BoolVal(False))]
        p, s = [c.val(x, TReal) for x in c.result.items]
        return [("p-value is one exactly for d-separated variables, otherwise zero", p == z3.If(sep, z3.RealVal(1), z3.RealVal(0)))]
