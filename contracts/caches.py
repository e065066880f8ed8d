"""Contracts of the classes that remember answers: independence tests, local scores, kernels.

Every query is verified on a fresh object and again after one arbitrary earlier query (driver: `history`); the answer must be
that of the query itself both times.  Since a query uses the remembered entries under a single key (checked), an arbitrary
history follows: whatever entry a query finds was written by one earlier query."""
from contracts.base import *
from contracts.digraph import once, none, TNL, TNS

CI = "cdmir.utils.independence.basic_independence.ConditionalIndependentTest."
TAns = register(TOpq("Answer"))
TIL, TIS = register(TList(TInt)), register(TSet(TInt))
TIF = register(TFSet(TInt))
TName = register(TDict(TNode, TInt))
Ans, IS = sort(TAns), sort(TIS)
# what the statistic of a pair is, without and with a conditioning set
STN = z3.Function("stat_plain", z3.IntSort(), z3.IntSort(), Ans)
ST = z3.Function("stat_given", z3.IntSort(), z3.IntSort(), IS, Ans)


def no_entries(eng, st, f):
    return eng.alloc(st, PMap())


CLASSES["CIT"] = {"__class__": "cdmir.utils.independence.basic_independence.ConditionalIndependentTest",
                  "_data": TOpq("Data"), "var_names": TNL, "name_id": TName, "cache": no_entries}


def members(c, v, ety, sty):
    """the items of a collection argument (whatever carries it) when the function was called"""
    if isinstance(v, Ref):
        k = c.old.heap[v.cid].c
        if isinstance(k, POnce):
            return L_elems(k.e, k.lty)
        if isinstance(k, V) and k.ty.kind == "List":
            return L_elems(k.e, k.ty)
    return c.val(v, sty, c.old)


def given(c, x, y, z):
    x, y = c.z(x, TInt), c.z(y, TInt)
    v = c.args[z]
    return STN(x, y) if v is NONE else ST(x, y, members(c, v, TInt, TIS))


EMPTY = z3.K(z3.IntSort(), z3.BoolVal(False))
DIFF = z3.Function("member_that_differs", IS, IS, z3.IntSort())


def symmetric():
    x, y, s = z3.Int("sx"), z3.Int("sy"), z3.Const("ss", IS)
    return [("the statistic belongs to the unordered pair", z3.And(z3.ForAll([x, y], STN(x, y) == STN(y, x), patterns=[STN(x, y)]),
                                                                   z3.ForAll([x, y, s], ST(x, y, s) == ST(y, x, s), patterns=[ST(x, y, s)]))),
            ("no conditioning set is the empty one", z3.ForAll([x, y], STN(x, y) == ST(x, y, EMPTY), patterns=[STN(x, y)]))] + ext(lambda s: ST(x, y, s), [x, y])


def ext(f, vs):
    """two sets with the same members are the same set (stated for the sets whose statistic is spoken about)"""
    s, t = z3.Const("es", IS), z3.Const("et", IS)
    ws = [z3.Const("e" + str(v), v.sort()) for v in vs]
    g = z3.substitute(f(t), *zip(vs, ws))
    return [("sets are determined by their members", z3.ForAll(vs + ws + [s, t], z3.Or(s == t, s[DIFF(s, t)] != t[DIFF(s, t)]), patterns=[z3.MultiPattern(f(s), g)]))]


def consumed(c, v):
    return [v] if isinstance(v, Ref) and isinstance(c.old.heap[v.cid].c, POnce) else []


@contract(CI + "cal_stats", trusted=True)
class _(Contract):
    """the statistic itself: a function of the pair and the set of conditioning variables"""
    def modifies(self, c):
        return consumed(c, c.args["z"])

    def result(self, eng, st, c):
        return V(TAns, given(c, "x", "y", "z"))


COLL = lambda t, s, f: ({"z_ids": none}, {"z_ids": t}, {"z_ids": s}, {"z_ids": once(t)}, {"z_ids": f})


class Named(Contract):
    key = "z_ids"

    def variant_name(self, v):
        t = v[self.key]
        return self.key + ": " + (t.kind if isinstance(t, Ty) else t.__name__)


@contract(CI + "itest", history=True)
class _(Named):
    receivers = ("CIT",)
    params = {"x_id": TInt, "y_id": TInt}
    variants = COLL(TIL, TIS, TIF)

    def requires(self, c):
        return symmetric()

    def modifies(self, c):
        return [(c.args["self"], "cache")] + consumed(c, c.args["z_ids"])

    def result(self, eng, st, c):
        return V(TAns, given(c, "x_id", "y_id", "z_ids"))

    def ensures(self, c):
        return [("the answer is the statistic of the asked pair and conditioning set", c.val(c.result, TAns) == given(c, "x_id", "y_id", "z_ids"))]


def pair_ids(c):
    return c.eng.to_z3(c.old, c.old.objs[c.args["self"].oid].fields["name_id"], TName)


@contract(CI + "__init__")
class _(Contract):
    receivers = ("CIT",)
    params = {"data": TOpq("Data"), "var_names": TNL}

    def modifies(self, c):
        return [(c.args["self"], f) for f in ("_data", "var_names", "name_id", "cache")]

    def ensures(self, c):
        o = c.st.objs[c.args["self"].oid]
        names = c.val(c.args["var_names"], TNL, c.old)
        nid = c.eng.to_z3(c.st, o.fields["name_id"], TName)
        u, = nv("u")
        cell = c.st.heap[o.fields["cache"].cid].c
        return [("an index for every name", D_dom(nid, TName) == L_elems(names, TNL)),
                ("the index is the position of the name", FA([u], z3.Implies(z3.And(L_elems(names, TNL)[u], L_dist(names, TNL)), D_val(nid, TName)[u] == L_idx(names, u, TNL)), [D_val(nid, TName)[u]])),
                ("data and names are kept", z3.And(c.eng.to_z3(c.st, o.fields["_data"], TOpq("Data")) == c.z("data", TOpq("Data")),
                                                   L_elems(c.eng.to_z3(c.st, o.fields["var_names"], TNL), TNL) == L_elems(names, TNL))),
                ("nothing is remembered yet", z3.BoolVal(isinstance(cell, PEmpty) or isinstance(cell, PMap) and not cell.entries or isinstance(cell, PDict) and not cell.items))]


TESTVARS = ({"z": none}, {"z": TNL}, {"z": TNS}, {"z": once(TNL)}, {"z": register(TFSet(TNode))})


@contract(CI + "test", comp_members=True)
class _(Named):
    receivers = ("CIT",)
    key = "z"
    params = {"x": TNode, "y": TNode}
    variants = TESTVARS

    def zs(self, c):
        v = c.args["z"]
        return None if v is NONE else members(c, v, TNode, TNS)

    def requires(self, c):
        D = D_dom(pair_ids(c), TName)
        Z = self.zs(c)
        out = [("both variables are known", z3.And(D[c.z("x", TNode)], D[c.z("y", TNode)]))]
        if Z is not None:
            out.append(("the conditioning variables are known", ssub(Z, D, TNode)))
        return out + symmetric()

    def modifies(self, c):
        return [(c.args["self"], "cache")] + consumed(c, c.args["z"])

    def answer(self, c):
        nid = pair_ids(c)
        val = lambda u: D_val(nid, TName)[u]
        x, y, Z = val(c.z("x", TNode)), val(c.z("y", TNode)), self.zs(c)
        if Z is None:
            return STN(x, y)
        I = fresh("ids", TIS)
        i, = [z3.Int(fresh_name("i"))]
        u, = nv("u")
        c.st.assume(z3.ForAll([i], I[i] == z3.Exists([u], z3.And(Z[u], val(u) == i)), patterns=[I[i]]))
        c.st.assume(FA([u], z3.Implies(Z[u], I[val(u)]), [Z[u]]))
        return ST(x, y, I)

    def ensures(self, c):
        return [("the answer is the statistic of the named pair and conditioning variables", c.val(c.result, TAns) == self.answer(c))]


# ------------------------------------------------------------------ local scores
LS = "cdmir.utils.local_score."
SF = z3.Function("local_score", z3.IntSort(), IS, Ans)
SCORES = {"BaseScore": "_base.BaseLocalScoreFunction", "BIC": "bic_score.BICScore", "BDeu": "bdeu_score.BDeuScore", "GeneralCV": "cross_validated_base.GeneralCVScore",
          "MultiCV": "cross_validated_base.MultiCVScore", "GeneralMarginal": "marginal_base.GeneralMarginalScore", "MultiMarginal": "marginal_base.MultiMarginalScore"}
COLLP = ({"parent_i": TIL}, {"parent_i": TIS}, {"parent_i": once(TIL)}, {"parent_i": TIF})


def score_of(c, i, ps):
    return SF(c.z(i, TInt), members(c, c.args[ps], TInt, TIS))


def any_score_function(eng, st, n):
    def f(e, s, args, kws, node):
        args = list(args) + [kws[k] for k in ("i", "parent_i") if k in kws]
        c = Ctx(e, s, s, {"i": args[0], "parent_i": args[1]})
        v = V(TAns, score_of(c, "i", "parent_i"))
        for r in consumed(c, args[1]):
            e.havoc_item(s, r, None)
        yield s, v
    return SpecF("score_function", f)


class ScoreQuery(Named):
    key = "parent_i"
    variants = COLLP
    params = {"i": TInt, "args": lambda e, s, n: PTup([]), "kwargs": lambda e, s, n: e.alloc(s, PDict({})), "score_function": any_score_function}

    def requires(self, c):
        return ext(lambda s: SF(z3.Int("si"), s), [z3.Int("si")])

    def modifies(self, c):
        return [(c.args["self"], "cache_dict")] + consumed(c, c.args["parent_i"])

    def result(self, eng, st, c):
        return V(TAns, score_of(c, "i", "parent_i"))

    def ensures(self, c):
        return [("the value is the score of the asked variable and parents", c.val(c.result, TAns) == score_of(c, "i", "parent_i"))]


for _cls, _q in SCORES.items():
    CLASSES[_cls] = {"__class__": LS + _q, "data": TOpq("Arr"), "cache_dict": no_entries}
    contract(LS + _q + "._score_function", trusted=True)(type("_", (Contract,), {
        "__doc__": "the score itself: a function of the variable and the set of parents",
        "modifies": lambda self, c: consumed(c, c.args["parent_i"]), "result": lambda self, eng, st, c: V(TAns, score_of(c, "i", "parent_i"))}))
    contract(LS + _q + ".__call__", history=True)(type("_", (ScoreQuery,), {"receivers": (_cls,)}))


@contract(LS + "_base.BaseLocalScoreFunction._score", history=True)
class _(ScoreQuery):
    receivers = ("BaseScore",)

    def callable_with(self, eng, st, bound):
        return False


# ------------------------------------------------------------------ kernels
KN = "cdmir.utils.kernel."
TArr = TOpq("Arr")
Arr = sort(register(TArr))
TWay = register(TOpq("Enum_WidthStrategyEnum"))
R = z3.RealSort()
GK = z3.Function("gaussian_kernel", Arr, Arr, R, Ans)
GK1 = z3.Function("gaussian_kernel_of_one", Arr, R, Ans)
PK = z3.Function("polynomial_kernel", Arr, Arr, z3.IntSort(), R, Ans)
LK = z3.Function("linear_kernel", Arr, Arr, Ans)
BK = z3.Function("base_kernel", Arr, Arr, Ans)
MEDIAN = z3.Function("median_width", Arr, R, z3.BoolSort())       # a relation: the median of a large sample is drawn at random
KCIW, HSICW = z3.Function("kci_width", Arr, R), z3.Function("hsic_width", Arr, R)
CLASSES["Gaussian"] = {"__class__": KN + "gaussian.GaussianKernel", "cache_dict": no_entries, "width": TReal, "width_strategy": TWay}
CLASSES["Polynomial"] = {"__class__": KN + "polynomial.PolynomialKernel", "cache_dict": no_entries, "degree": TInt, "const": TReal}
CLASSES["Linear"] = {"__class__": KN + "linear.LinearKernel", "cache_dict": no_entries}
CLASSES["BaseKernel"] = {"__class__": KN + "_base.BaseKernel", "cache_dict": no_entries}


def attr_of(c, st, name, ty):
    return c.eng.to_z3(st, st.objs[c.args["self"].oid].fields[name], ty)


def kernel_fn(which, x, y):
    """what the kernel function of this class gives for two data sets and the parameters in force"""
    def value(c, st):
        a = c.val(c.args[x], TArr, st)
        if c.args[y] is NONE:
            return GK1(a, attr_of(c, st, "width", TReal)) if which == "Gaussian" else None
        b = c.val(c.args[y], TArr, st)
        return {"Gaussian": lambda: GK(a, b, attr_of(c, st, "width", TReal)), "Polynomial": lambda: PK(a, b, attr_of(c, st, "degree", TInt), attr_of(c, st, "const", TReal)),
                "Linear": lambda: LK(a, b), "BaseKernel": lambda: BK(a, b)}[which]()
    return value


PARAMETERS = {"Gaussian": (("width", TReal),), "Polynomial": (("degree", TInt), ("const", TReal)), "Linear": (), "BaseKernel": ()}


class KernelQuery(Contract):
    params = {"xs": TArr, "ys": TArr, "args": lambda e, s, n: PTup([]), "kwargs": lambda e, s, n: e.alloc(s, PDict({}))}

    def between(self, eng, st, me):
        """the parameters may be changed between two evaluations"""
        o = st.objs[me.oid]
        for f, ty in PARAMETERS[o.cls]:
            o.fields[f] = V(ty, fresh(f, ty))

    def variant_name(self, v):
        return "one data set" if v else "two data sets"

    def modifies(self, c):
        return [(c.args["self"], "cache_dict")] + ([(c.args["self"], "width")] if self.receivers == ("Gaussian",) else [])

    def way(self, c, name):
        from pyver.numpy_model import enum_member
        cls = c.eng.prog.find(CLASSES["Gaussian"]["__class__"]).nested["WidthStrategyEnum"]
        return enum_member(c.eng, c.st, cls, name).e

    def ensures(self, c):
        out = [("the matrix is the kernel of the given data and the parameters in force", c.val(c.result, TAns) == kernel_fn(self.receivers[0], "xs", "ys")(c, c.st))]
        if self.receivers == ("Gaussian",):
            w, w0, s = attr_of(c, c.st, "width", TReal), attr_of(c, c.old, "width", TReal), attr_of(c, c.old, "width_strategy", TWay)
            x = c.val(c.args["xs"], TArr, c.old)
            out += [("a manual width is kept", z3.Implies(s == self.way(c, "manual"), w == w0)),
                    ("the width follows the strategy", z3.And(z3.Implies(s == self.way(c, "median"), MEDIAN(x, w)), z3.Implies(s == self.way(c, "empirical_kci"), w == KCIW(x)),
                                                              z3.Implies(s == self.way(c, "empirical_hsic"), w == HSICW(x))))]
        return out

    def requires(self, c):
        if self.receivers != ("Gaussian",):
            return []
        s = attr_of(c, c.st, "width_strategy", TWay)
        return [("the strategy is one of the enumeration", z3.Or(*[s == self.way(c, n) for n in ("manual", "median", "empirical_kci", "empirical_hsic")]))]


def _kernels():
    for cls, q, a in (("Gaussian", "gaussian.GaussianKernel", ("x", "y")), ("Polynomial", "polynomial.PolynomialKernel", ("x", "y")), ("Linear", "linear.LinearKernel", ("x", "y")),
                      ("BaseKernel", "_base.BaseKernel", ("data_x", "data_y"))):
        contract(KN + q + ".__kernel_func", trusted=True)(type("_", (Contract,), {
            "__doc__": "the kernel itself: a function of the data sets and the parameters",
            "result": lambda self, eng, st, c, k=kernel_fn(cls, *a): V(TAns, k(c, st))}))
        vs = (None, {"ys": none}) if cls == "Gaussian" else (None,)
        contract(KN + q + ".__call__", history=True)(type("_", (KernelQuery,), {"receivers": (cls,), "variants": vs}))


_kernels()
for _n, _f in (("median", lambda c, w: MEDIAN(c.z("data_x", TArr), w)), ("empirical_kci", lambda c, w: w == KCIW(c.z("data_x", TArr))), ("empirical_hsic", lambda c, w: w == HSICW(c.z("data_x", TArr)))):
    contract(KN + "gaussian.GaussianKernel.__cal_kernel_width_by_" + _n, trusted=True)(type("_", (Contract,), {
        "__doc__": "a width computed from the data", "result_ty": TReal, "ensures": lambda self, c, f=_f: [("width", f(c, c.val(c.result, TReal)))]}))
