"""Contract of cdmir.discovery.constraint.pc.PC.fit: the search on the given data, a separate copy of its graph, orientation."""
from contracts.base import *
from contracts.pdag import TSep, pr, same_pairs, TRIG, trig
from contracts.adjacency import PVAL, A
from contracts.caches import TArr
from pyver.driver import fresh_object

PC = "cdmir.discovery.constraint.pc.PC."
TExtra = register(TOpq("Extra"))
BASE = "cdmir.utils.independence.basic_independence.ConditionalIndependentTest"


def opt_none(eng, st, f):
    return NONE


CLASSES["PC"] = {"__class__": "cdmir.discovery.constraint.pc.PC", "skeleton": opt_none, "causal_graph": opt_none, "sep_set": opt_none, "indep_test": opt_none,
                 "alpha": TReal, "verbose": TBool, "adjacency_search_method": opt_none}
CLASSES["Oracle"] = {"__class__": "Oracle"}


def test_class(eng, st, n):
    """a class of conditional-independence tests: notes what an instance is made from; the instance keeps the names it is given"""
    def f(e, s, args, kws, node):
        o = e.new_obj(s, "Oracle")
        names = args[1] if len(args) > 1 else kws.get("var_names")
        if names is None:
            names = e.havoc_value(s, TNL, "chosen_names")
        s.objs[o.oid].fields["var_names"] = names
        s.ghost["tests"] = s.ghost.get("tests", ()) + ((o, tuple(args), tuple(sorted(kws.items()))),)
        yield s, o
    v = SpecF("test_class", f)
    v.subclass_of = (BASE,)
    return v


def other_class(eng, st, n):
    v = test_class(eng, st, n)
    v.subclass_of = ()
    return v


def library(name):
    def f(eng, st, n):
        return FuncV(eng.prog.find(A + name))
    f.__name__ = name
    return f


def any_search(eng, st, n):
    """a search of the user's own: an undirected graph on the names it is given, a separator entry for every two of them"""
    def f(e, s, args, kws, node):
        g = fresh_object(e, s, "PDAG")
        sep = e.havoc_value(s, TSep, "sep")
        c = Ctx(e, s, s, {"g": g})
        v = GV(c, "g")
        a, b = nv("a", "b")
        names = e.to_z3(s, args[1] if len(args) > 1 else kws["var_names"], TNL)
        i = z3.Int(fresh_name("i"))
        for _, h in v.inv():
            s.assume(h)
        s.assume(z3.And(v.N == L_elems(names, TNL), L_len(v.L, TNL) == L_len(names, TNL), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(names, TNL)), L_arr(v.L, TNL)[i] == L_arr(names, TNL)[i]))))
        s.assume(FA([a, b], z3.Implies(v.conn(a, b), v.und(a, b)), [v.rec(a, b)]))
        z = e.to_z3(s, sep, TSep)
        s.assume(FA([a, b], D_dom(z, TSep)[pr(a, b)] == z3.And(v.N[a], v.N[b], a != b), [D_dom(z, TSep)[pr(a, b)]]))
        s.ghost["searches"] = s.ghost.get("searches", ()) + ((g, s.copy(), sep, tuple(args), tuple(sorted(kws.items()))),)
        yield s, PTup([g, sep])
    return SpecF("search", f)


def two_extra(eng, st, n):
    return PTup([eng.havoc_value(st, TExtra, "x1"), eng.havoc_value(st, TExtra, "x2")])


def one_keyword(eng, st, n):
    return eng.alloc(st, PDict({"option": eng.havoc_value(st, TExtra, "k1")}))


@contract(PC + "fit", cost=3)
class _(Contract):
    receivers = ("PC",)
    params = {"data": TArr, "var_names": TNL, "indep_cls": test_class, "args": two_extra, "kwargs": one_keyword}
    variants = tuple({"search": f} for f in (library("adjacency_search"), library("fast_adjacency_search"), any_search)) + ({"search": any_search, "indep_cls": other_class},)
    arguments = ("search",)

    def variant_name(self, v):
        return v["search"].__name__ + (", no test class" if "indep_cls" in v else "")

    def setup(self, eng, st, args):
        st.objs[args["self"].oid].fields["adjacency_search_method"] = args["search"]

    def alpha(self, c):
        return c.eng.to_z3(c.old, c.old.objs[c.args["self"].oid].fields["alpha"], TReal)

    def requires(self, c):
        u, v, Z = nv("u", "v") + [z3.Const(fresh_name("Z"), sort(TNS))]
        return [("variable names are distinct", L_dist(c.z("var_names", TNL), TNL)),
                ("answers are symmetric in the pair", FA([u, v, Z], PVAL(u, v, Z) == PVAL(v, u, Z), [PVAL(u, v, Z)]))]

    def raises(self, c):
        return {"AssertionError": z3.BoolVal(c.args["indep_cls"].subclass_of == ())}

    def modifies(self, c):
        return [(c.args["self"], f) for f in ("skeleton", "causal_graph", "sep_set", "indep_test")]

    def ensures(self, c):
        me = c.st.objs[c.args["self"].oid].fields
        sk, cg, sep = me["skeleton"], me["causal_graph"], me["sep_set"]
        tests = c.st.ghost.get("tests", ())
        same = lambda x, y: x is y or isinstance(x, V) and isinstance(y, V) and x.e.eq(y.e) or isinstance(x, Ref) and isinstance(y, Ref) and x.cid == y.cid
        extra, kw = c.args["args"].items, c.old.heap[c.args["kwargs"].cid].c.items
        given = [c.args["data"], c.args["var_names"]] + list(extra)

        def made_right(t):
            _, args, kws = t
            got = dict(zip(("data", "var_names"), args[:2]))
            kws = dict(kws)
            for k in ("data", "var_names"):
                if k in kws:
                    got[k] = kws.pop(k)
            return set(got) == {"data", "var_names"} and same(got["data"], given[0]) and len(args) == 4 and same(args[2], extra[0]) and same(args[3], extra[1]) and \
                set(kws) == {"option"} and same(kws["option"], kw["option"])
        isg = lambda x: isinstance(x, ObjRef) and c.st.objs[x.oid].cls == "PDAG"
        out = [("one test is made, from the data, the names and the further arguments", z3.BoolVal(len(tests) == 1 and made_right(tests[0]))),
               ("a skeleton and a causal graph are recorded", z3.BoolVal(isg(sk) and isg(cg)))]
        if not (len(tests) == 1 and isg(sk) and isg(cg)):
            return out
        names = c.val(c.args["var_names"], TNL, c.old)
        tn = c.st.objs[tests[0][0].oid].fields["var_names"]
        tn = tests[0][1][1] if len(tests[0][1]) > 1 else tn
        out += [("the test is given the names", self.same_list(c.val(tn, TNL, c.st), names)),
                ("the test is recorded", z3.BoolVal(isinstance(me["indep_test"], ObjRef) and me["indep_test"].oid == tests[0][0].oid))]
        cells = lambda x: {c.st.objs[x.oid].fields[f].cid for f in ("node_set", "node_list", "_adj")}
        out.append(("the causal graph shares nothing with the skeleton", z3.BoolVal(sk.oid != cg.oid and not cells(sk) & cells(cg))))
        g, h = GV(c, sk), GV(c, cg)
        a, b = nv("a", "b")
        out += [("skeleton: " + l, f) for l, f in g.inv()] + [("causal graph: " + l, f) for l, f in h.inv()]
        out += [("the skeleton has the given variables in order", z3.And(g.N == L_elems(names, TNL), self.same_list(g.L, names))),
                ("the skeleton is undirected", FA([a, b], z3.Implies(g.conn(a, b), g.und(a, b)), [g.rec(a, b)])),
                ("the causal graph has its nodes in the same order", h.same_nodes(g)),
                ("the causal graph has its adjacencies", same_pairs(h, g))]
        if isinstance(c.args["search"], FuncV):
            ct = REG[c.args["search"].info.qual]
            c2 = Ctx(c.eng, c.st, c.old, {"var_names": c.args["var_names"], "alpha": V(TReal, self.alpha(c)), "indep_test": tests[0][0]}, result=PTup([sk, sep]))
            out += [("skeleton and separators: " + l, f) for l, f in ct.ensures(c2)]
        else:
            runs = c.st.ghost.get("searches", ())
            ok = len(runs) == 1
            if ok:
                _, at, s0, args, kws = runs[0]
                got = dict(zip(("independence", "var_names", "alpha", "verbose"), args))
                ok = not set(got) & set(dict(kws)) and len(args) <= 4
                got.update(dict(kws))
                # the first parameter has another name in each search, so it is passed by position
                ok = ok and len(args) >= 1 and set(got) - {"verbose"} == {"independence", "var_names", "alpha"} and isinstance(args[0], ObjRef) and args[0].oid == tests[0][0].oid
            out.append(("the search is run once, on the test", z3.BoolVal(ok)))
            if ok:
                o = GV(c, runs[0][0], at)
                out += [("the search is given the names", self.same_list(c.eng.to_z3(at, got["var_names"], TNL), names)),
                        ("the search is given the configured level", c.eng.to_z3(at, got["alpha"], TReal) == self.alpha(c)),
                        ("the skeleton is the graph of the search", z3.And(g.same_nodes(o), same_pairs(g, o), FA([a, b], z3.Implies(o.conn(a, b), g.mk(a, b) == o.mk(a, b)), [g.rec(a, b)]))),
                        ("the separators are those of the search", z3.BoolVal(isinstance(sep, Ref) and isinstance(s0, Ref) and sep.cid == s0.cid) if isinstance(sep, Ref) and isinstance(s0, Ref) and sep.cid == s0.cid
                         else c.val(sep, TSep) == c.eng.to_z3(at, s0, TSep))]
        meek = REG["cdmir.graph.pdag.PDAG.orient_by_meek_rules"]
        c3 = Ctx(c.eng, c.st, c.old, {"self": cg})
        return out + [("orientation is complete: the pattern of rule %d occurs nowhere" % k, meek.nowhere(c3, k)) for k in (1, 2, 3, 4)]

    def same_list(self, l, m):
        i = z3.Int(fresh_name("i"))
        return z3.And(L_len(l, TNL) == L_len(m, TNL), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(m, TNL)), L_arr(l, TNL)[i] == L_arr(m, TNL)[i])))


@contract(PC + "__init__")
class _(Contract):
    receivers = ("PC",)
    params = {"alpha": TReal, "adjacency_search_method": any_search, "verbose": TBool}

    def modifies(self, c):
        return [(c.args["self"], f) for f in ("skeleton", "causal_graph", "sep_set", "indep_test", "alpha", "adjacency_search_method", "verbose")]

    def ensures(self, c):
        me = c.st.objs[c.args["self"].oid].fields
        return [("level and search are those given", z3.And(c.val(me["alpha"], TReal) == c.z("alpha", TReal), z3.BoolVal(me["adjacency_search_method"] is c.args["adjacency_search_method"])))]


@contract(PC + "set_alpha")
class _(Contract):
    receivers = ("PC",)
    params = {"alpha": TReal}

    def modifies(self, c):
        return [(c.args["self"], "alpha")]

    def ensures(self, c):
        return [("the level is the one given", c.val(c.st.objs[c.args["self"].oid].fields["alpha"], TReal) == c.z("alpha", TReal))]
