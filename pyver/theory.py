"""Types, SMT sorts and the background theory (finite sets, lists, dicts, cardinality).

Every Python value the engine tracks symbolically has a type `Ty` with one SMT sort:
  Node      any hashable object that is only compared (uninterpreted sort)
  Int Bool Real Str
  Set[T]    Array T Bool
  List[T]   datatype (len, arr) plus functions elems/idx/dist (see list_axioms)
  Dict[K,V] datatype (dom, val)
  Tup[..]   datatype
Axioms are universally quantified facts about finite Python collections; each one is listed by
`axiom_catalogue()` for the evidence file, and selfcheck.py validates each of them on random
concrete finite collections.
"""
import z3

_cache = {}


class Ty:
    def __init__(self, kind, args=(), names=None):
        self.kind, self.args, self.names = kind, tuple(args), names

    @property
    def key(self):
        return self.kind + (("[" + ",".join(a.key for a in self.args) + "]") if self.args else "")

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    @property
    def mutable(self):
        return self.kind in ("Set", "List", "Dict", "Mat")


TNode, TInt, TBool, TReal, TStr = Ty("Node"), Ty("Int"), Ty("Bool"), Ty("Real"), Ty("Str")


def TOpq(name):
    """an opaque sort: values that are only passed around and compared"""
    return Ty("Opq_" + name)


def TSet(t):
    return Ty("Set", [t])


def TList(t):
    return Ty("List", [t])


def TDict(k, v):
    return Ty("Dict", [k, v])


def TMat(t):
    return Ty("Mat", [t])


def TTup(*ts, names=None):
    return Ty("Tup", ts, names)


def TFSet(t):  # immutable collection value known by its set of elements (tuples used as sets)
    return Ty("Coll", [t])


def sort(t):
    k = t.key
    if k in _cache:
        return _cache[k]
    kd = t.kind
    if kd == "Node" or kd.startswith("Opq_"):
        s = z3.DeclareSort(kd)
    elif kd == "Int":
        s = z3.IntSort()
    elif kd == "Bool":
        s = z3.BoolSort()
    elif kd == "Real":
        s = z3.RealSort()
    elif kd == "Str":
        s = z3.DeclareSort("Str")
    elif kd in ("Set", "Coll"):
        s = z3.ArraySort(sort(t.args[0]), z3.BoolSort())
    elif kd == "List":
        s = z3.DeclareSort(mangle(k))
    elif kd == "Dict":
        d = z3.Datatype(mangle(k))
        d.declare("mk_" + mangle(k), ("dom_" + mangle(k), z3.ArraySort(sort(t.args[0]), z3.BoolSort())),
                  ("val_" + mangle(k), z3.ArraySort(sort(t.args[0]), sort(t.args[1]))))
        s = d.create()
    elif kd == "Mat":
        d = z3.Datatype(mangle(k))
        d.declare("mk_" + mangle(k), ("rows_" + mangle(k), z3.IntSort()), ("cols_" + mangle(k), z3.IntSort()),
                  ("cells_" + mangle(k), z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), sort(t.args[0])))))
        s = d.create()
    elif kd == "Tup":
        d = z3.Datatype(mangle(k))
        d.declare("mk_" + mangle(k), *[("f%d_%s" % (i, mangle(k)), sort(a)) for i, a in enumerate(t.args)])
        s = d.create()
    else:
        raise ValueError(k)
    _cache[k] = s
    return s


def mangle(k):
    return k.replace("[", "_").replace("]", "").replace(",", "_")


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return "%s!%d" % (base, _fresh[0])


def fresh(base, t):
    return z3.Const(fresh_name(base), sort(t))


def reset_fresh():
    _fresh[0] = 0


# ---- sets
def empty_set(t):
    return z3.K(sort(t), z3.BoolVal(False))


def sadd(s, x):
    return z3.Store(s, x, True)


def sdel(s, x):
    return z3.Store(s, x, False)


def sunion(a, b):
    return z3.SetUnion(a, b)


def sinter(a, b):
    return z3.SetIntersect(a, b)


def sdiff(a, b):
    return z3.SetDifference(a, b)


def ssub(a, b, t):
    x = z3.Const(fresh_name("sx"), sort(t))
    if z3.is_const(a) or z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
        return z3.ForAll([x], z3.Implies(a[x], b[x]), patterns=[a[x]])
    return z3.ForAll([x], z3.Implies(a[x], b[x]))


# ---- uninterpreted helpers per type
_fun = {}


def fun(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _fun:
        _fun[key] = z3.Function(name, *sorts)
    return _fun[key]


def card(s, t):
    return fun("card_" + mangle(t.key), z3.ArraySort(sort(t), z3.BoolSort()), z3.IntSort())(s)


def card_in(a, b, t):
    """number of members of a that are in b"""
    A = z3.ArraySort(sort(t), z3.BoolSort())
    return fun("cardin_" + mangle(t.key), A, A, z3.IntSort())(a, b)


def L_len(e, t):
    return fun("len_" + mangle(t.key), sort(t), z3.IntSort())(e)


def L_arr(e, t):
    return fun("arr_" + mangle(t.key), sort(t), z3.ArraySort(z3.IntSort(), sort(t.args[0])))(e)


def L_mk(n, a, t):
    """the list of length n (0 <= n) whose items are a[0..n)"""
    return fun("mk_" + mangle(t.key), z3.IntSort(), z3.ArraySort(z3.IntSort(), sort(t.args[0])), sort(t))(n, a)


def L_elems(e, t):
    S = sort(t)
    return fun("elems_" + mangle(t.key), S, z3.ArraySort(sort(t.args[0]), z3.BoolSort()))(e)


def L_idx(e, x, t):
    return fun("idx_" + mangle(t.key), sort(t), sort(t.args[0]), z3.IntSort())(e, x)


def L_dist(e, t):
    return fun("dist_" + mangle(t.key), sort(t), z3.BoolSort())(e)


def D_dom(e, t):
    return sort(t).accessor(0, 0)(e)


def D_val(e, t):
    return sort(t).accessor(0, 1)(e)


def D_mk(d, v, t):
    return sort(t).constructor(0)(d, v)


def M_rows(e, t):
    return sort(t).accessor(0, 0)(e)


def M_cols(e, t):
    return sort(t).accessor(0, 1)(e)


def M_arr(e, t):
    return sort(t).accessor(0, 2)(e)


def M_mk(r, c, a, t):
    return sort(t).constructor(0)(r, c, a)


def T_get(e, i, t):
    return sort(t).accessor(0, i)(e)


def T_mk(es, t):
    return sort(t).constructor(0)(*es)


def default(t):
    return z3.Const("dflt_" + mangle(t.key), sort(t))


def empty(t):
    if t.kind in ("Set", "Coll"):
        return empty_set(t.args[0])
    if t.kind == "List":
        return L_mk(z3.IntVal(0), z3.Const("arr0_" + mangle(t.key), z3.ArraySort(z3.IntSort(), sort(t.args[0]))), t)
    if t.kind == "Dict":
        return D_mk(empty_set(t.args[0]), z3.Const("val0_" + mangle(t.key), z3.ArraySort(sort(t.args[0]), sort(t.args[1]))), t)
    raise ValueError(t)


# ---- axioms
def list_axioms(t):
    """t = List[E].  elems = set of items, idx = first index of an item, dist = no duplicates."""
    S, E = sort(t), sort(t.args[0])
    k, b = z3.Int("k!l"), z3.Const("b!" + t.key, z3.ArraySort(z3.IntSort(), E))
    mk = L_mk(k, b, t)
    l, i, j, x = z3.Const("l!" + t.key, S), z3.Int("i!l"), z3.Int("j!l"), z3.Const("x!" + t.key, E)
    n, a, el = L_len(l, t), L_arr(l, t), L_elems(l, t)
    return [
        ("length of a built list", z3.ForAll([k, b], z3.And(z3.Implies(k >= 0, L_len(mk, t) == k), L_arr(mk, t) == b), patterns=[mk])),
        ("len>=0", z3.ForAll([l], n >= 0, patterns=[n])),
        ("item in elems, idx is first", z3.ForAll([l, i], z3.Implies(z3.And(0 <= i, i < n),
            z3.And(el[a[i]], L_idx(l, a[i], t) <= i)), patterns=[a[i]])),
        ("elems have an index", z3.ForAll([l, x], z3.Implies(el[x],
            z3.And(0 <= L_idx(l, x, t), L_idx(l, x, t) < n, a[L_idx(l, x, t)] == x)), patterns=[L_idx(l, x, t)])),
        ("dist: idx inverts arr", z3.ForAll([l, i], z3.Implies(z3.And(L_dist(l, t), 0 <= i, i < n),
            L_idx(l, a[i], t) == i), patterns=[z3.MultiPattern(L_dist(l, t), a[i])])),
        ("empty list", z3.ForAll([l], z3.Implies(n == 0, z3.And(L_dist(l, t), el == empty_set(t.args[0]))), patterns=[n])),
        ("a list is distinct exactly when it is as long as it has items", z3.ForAll([l], z3.And(0 <= card(el, t.args[0]), card(el, t.args[0]) <= n, L_dist(l, t) == (n == card(el, t.args[0]))), patterns=[L_dist(l, t)])),
    ]


def bounded_domain(t):
    """the sort may be read as the finite set of values that occur in one execution; otherwise (it contains numbers) sets
    over it may be infinite, card is -1 for those and the cardinality axioms are guarded by card >= 0"""
    return t.kind in ("Node", "Str", "Bool") or t.kind.startswith("Opq_") or t.kind == "Tup" and all(bounded_domain(a) for a in t.args)


def card_axioms(t):
    if not bounded_domain(t):
        return card_axioms_inf(t)
    A = z3.ArraySort(sort(t), z3.BoolSort())
    s, r, x = z3.Const("s!c" + t.key, A), z3.Const("r!c" + t.key, A), z3.Const("x!c" + t.key, sort(t))
    c = lambda z: card(z, t)
    sub = lambda a, b: z3.ForAll([x], z3.Implies(a[x], b[x]))
    return [
        ("card>=0", z3.ForAll([s], c(s) >= 0, patterns=[c(s)])),
        ("card 0 iff empty", z3.ForAll([s], (c(s) == 0) == (s == empty_set(t)), patterns=[c(s)])),
        ("card add", z3.ForAll([s, x], c(z3.Store(s, x, True)) == z3.If(s[x], c(s), c(s) + 1), patterns=[c(z3.Store(s, x, True))])),
        ("card remove", z3.ForAll([s, x], c(z3.Store(s, x, False)) == z3.If(s[x], c(s) - 1, c(s)), patterns=[c(z3.Store(s, x, False))])),
        ("card mono", z3.ForAll([s, r], z3.Implies(sub(s, r), z3.And(c(s) <= c(r), z3.Implies(c(s) == c(r), s == r))),
                                patterns=[z3.MultiPattern(c(s), c(r))])),
    ]


def card_axioms_inf(t):
    A = z3.ArraySort(sort(t), z3.BoolSort())
    s, r, x = z3.Const("s!c" + t.key, A), z3.Const("r!c" + t.key, A), z3.Const("x!c" + t.key, sort(t))
    c = lambda z: card(z, t)
    sub = lambda a, b: z3.ForAll([x], z3.Implies(a[x], b[x]))
    return [
        ("card 0 iff empty", z3.ForAll([s], (c(s) == 0) == (s == empty_set(t)), patterns=[c(s)])),
        ("card add", z3.ForAll([s, x], z3.Implies(c(s) >= 0, c(z3.Store(s, x, True)) == z3.If(s[x], c(s), c(s) + 1)), patterns=[c(z3.Store(s, x, True))])),
        ("card remove", z3.ForAll([s, x], z3.Implies(c(s) >= 0, c(z3.Store(s, x, False)) == z3.If(s[x], c(s) - 1, c(s))), patterns=[c(z3.Store(s, x, False))])),
        ("card mono", z3.ForAll([s, r], z3.Implies(z3.And(c(r) >= 0, sub(s, r)), z3.And(0 <= c(s), c(s) <= c(r), z3.Implies(c(s) == c(r), s == r))),
                                patterns=[z3.MultiPattern(c(s), c(r))])),
    ]


def cardin_axioms(t):
    if not bounded_domain(t):
        raise ValueError("counting within %s" % t)
    A = z3.ArraySort(sort(t), z3.BoolSort())
    s, r, x = z3.Const("s!d" + t.key, A), z3.Const("r!d" + t.key, A), z3.Const("x!d" + t.key, sort(t))
    c = lambda a, b: card_in(a, b, t)
    on, off = z3.Store(r, x, True), z3.Store(r, x, False)
    return [
        ("part of a set", z3.ForAll([s, r], z3.And(0 <= c(s, r), c(s, r) <= card(s, t)), patterns=[c(s, r)])),
        ("all of it exactly when it is a subset", z3.ForAll([s, r], (c(s, r) == card(s, t)) == z3.ForAll([x], z3.Implies(s[x], r[x]), patterns=[s[x]]), patterns=[c(s, r)])),
        ("none of an empty set", z3.ForAll([s, r], z3.Implies(r == empty_set(t), c(s, r) == 0), patterns=[c(s, r)])),
        ("one more", z3.ForAll([s, r, x], c(s, on) == c(s, r) + z3.If(z3.And(s[x], z3.Not(r[x])), 1, 0), patterns=[c(s, on)])),
        ("one less", z3.ForAll([s, r, x], c(s, off) == c(s, r) - z3.If(z3.And(s[x], r[x]), 1, 0), patterns=[c(s, off)])),
    ]


def collect_types(exprs):
    """which List/card theories are used by the given formulas (by function names)"""
    names = set()
    seen = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            d = e.decl()
            names.add(d.name())
            names.add("sort:" + d.range().name())
            stack.extend(e.children())
    return names


_types = {}


def register(t):
    _types[t.key] = t
    for a in t.args:
        register(a)
    return t


def background(exprs):
    names = collect_types(exprs)
    out = []
    cards = set()
    for t in list(_types.values()):
        if t.kind == "List" and ("sort:" + sort(t).name()) in names:
            ax = list_axioms(t)
            if not any(n.startswith("card_" + mangle(t.args[0].key)) for n in names):
                ax = ax[:-1]
            else:
                cards.add(t.args[0].key)
            out += ax
    for t in list(_types.values()):
        if ("cardin_" + mangle(t.key)) in names:
            cards.add(t.key)
            out += cardin_axioms(t)
    for t in list(_types.values()):
        if ("card_" + mangle(t.key)) in names or t.key in cards:
            out += card_axioms(t)
    return out
