"""Models of Python builtins, itertools, collections, copy and the few numpy calls the code uses.

Every entry is a trusted specification of a library function; selfcheck.py compares each of them with
CPython on random inputs.
"""
import ast
import z3
from .theory import *
from .values import *

BUILTIN_NAMES = {"set", "list", "dict", "tuple", "len", "range", "enumerate", "sum", "any", "all", "map", "sorted", "isinstance",
                 "type", "min", "max", "abs", "int", "float", "str", "bool", "print", "hash", "zip", "super", "object", "iter",
                 "next", "issubclass", "frozenset", "round", "repr", "id", "filter", "reversed", "pow",
                 "Exception", "ValueError", "KeyError", "TypeError", "AssertionError", "NotImplementedError", "RuntimeError",
                 "IndexError", "UserWarning", "StopIteration", "AttributeError", "NotImplemented", "True", "False", "None"}
SKIP_CALLS = {"warnings.warn", "logging.info", "logging.warning", "logging.debug", "logging.error", "builtins.print", "print"}
CONSTS = {"numpy.inf": lambda: V(TReal, z3.Const("np_inf", z3.RealSort())),
          "math.inf": lambda: V(TReal, z3.Const("np_inf", z3.RealSort()))}
BUILTINS = {}


def b(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


def only(it):
    r = list(it)
    if len(r) != 1:
        raise Unsupported("branching iterable")
    return r[0]


def it_set(eng, st, it):
    """z3 set of the items of an It"""
    if it.kind == "set":
        return it.e, it.ety
    if it.kind == "list":
        return L_elems(it.e, it.lty), it.ety
    if it.kind == "items" and it.items:
        t = eng.type_of(st, it.items[0])
        if t is None:
            raise Unsupported("items of unknown type")
        e = empty_set(t)
        for x in it.items:
            e = sadd(e, eng.to_z3(st, x, t))
        return e, t
    if it.kind == "range":
        s = fresh("rng", TSet(TInt))
        i = z3.Int(fresh_name("i"))
        st.assume(z3.ForAll([i], s[i] == z3.And(it.e[0] <= i, i < it.e[1]), patterns=[s[i]]))
        lo, hi = it.e
        st.assume(card(s, TInt) == z3.If(hi > lo, hi - lo, 0))
        return s, TInt
    raise Unsupported("iterable of kind %s as a set" % it.kind)


def it_list(eng, st, it, need_dist=False, node=None):
    """-> (z3 list, List type); distinctness is demanded as an obligation if need_dist"""
    if it.kind == "list":
        if need_dist:
            eng.oblige(st, L_dist(it.e, it.lty), "%s: items pairwise distinct" % eng.tname(), node, "pre")
            st.assume(L_dist(it.e, it.lty))
        return it.e, register(it.lty)
    if it.kind == "set":
        if it.unique:
            return eng.list_of_set(st, it.e, it.ety)
        lty = register(TList(it.ety))
        l = fresh("lst", lty)
        st.assume(L_elems(l, lty) == it.e)
        if need_dist:
            raise Unsupported("items may repeat")
        return l, lty
    if it.kind == "items":
        if not it.items:
            raise Unsupported("empty literal")
        t = eng.type_of(st, it.items[0])
        lty = register(TList(t))
        return eng.content_z3(st, PL(it.items), lty), lty
    if it.kind == "range":
        lty = register(TList(TInt))
        l = fresh("rngl", lty)
        i = z3.Int(fresh_name("i"))
        lo, hi = it.e
        st.assume(L_len(l, lty) == z3.If(hi > lo, hi - lo, 0))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(l, lty)), L_arr(l, lty)[i] == lo + i), patterns=[L_arr(l, lty)[i]]))
        st.assume(z3.ForAll([i], L_elems(l, lty)[i] == z3.And(lo <= i, i < hi), patterns=[L_elems(l, lty)[i]]))
        st.assume(L_dist(l, lty))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), L_idx(l, i, lty) == i - lo), patterns=[L_idx(l, i, lty)]))
        return l, lty
    raise Unsupported("iterable of kind %s as a list" % it.kind)


@b("builtins.set", "builtins.frozenset")
def _set(eng, st, args, kws, node):
    if not args:
        yield st, eng.alloc(st, PEmpty("Set"))
        return
    for s, it in eng.as_iter(st, args[0], node):
        if it.kind == "items" and not it.items:
            yield s, eng.alloc(s, PEmpty("Set"))
            continue
        if it.kind == "map":
            for s2, it2 in eng.map_collect(s, it, node):
                e, t = it_set(eng, s2, it2)
                yield s2, eng.alloc(s2, V(register(TSet(t)), e))
            continue
        e, t = it_set(eng, s, it)
        yield s, eng.alloc(s, V(register(TSet(t)), e))


@b("builtins.dict")
def _dict(eng, st, args, kws, node):
    if args:
        raise Unsupported("dict(...)", node)
    if kws:
        yield st, eng.alloc(st, PDict(kws))
    else:
        yield st, eng.alloc(st, PEmpty("Dict"))


def _mklist(eng, st, args, node, wrap):
    if not args:
        yield st, wrap(st, PL([]))
        return
    for s, it in eng.as_iter(st, args[0], node):
        if it.kind == "map":
            for s2, it2 in eng.map_collect(s, it, node):
                if it2.kind == "opaque":
                    yield s2, ExtV("<result of a map with effects>")
                    continue
                yield s2, wrap(s2, _list_content(eng, s2, it2, node))
            continue
        yield s, wrap(s, _list_content(eng, s, it, node))


def _list_content(eng, s, it, node):
    if it.kind == "items":
        return PL(it.items)
    l, lty = it_list(eng, s, it, node=node)
    return V(lty, l)


@b("builtins.list", "collections.deque")
def _list(eng, st, args, kws, node):
    yield from _mklist(eng, st, args, node, lambda s, c: eng.alloc(s, c))


@b("builtins.tuple")
def _tuple(eng, st, args, kws, node):
    yield from _mklist(eng, st, args, node, lambda s, c: PTup(c.items) if isinstance(c, PL) else c)


@b("builtins.len")
def _len(eng, st, args, kws, node):
    v = args[0]
    if isinstance(v, OptV):
        v = eng.unwrap_opt(st, v, node)
    if isinstance(v, PTup):
        yield st, V(TInt, z3.IntVal(len(v.items)))
        return
    if isinstance(v, V) and v.ty.kind == "Tup":
        yield st, V(TInt, z3.IntVal(len(v.ty.args)))
        return
    if isinstance(v, (RangeV,)):
        yield st, V(TInt, z3.If(v.hi > v.lo, v.hi - v.lo, 0))
        return
    c = v
    if isinstance(v, Ref):
        c = eng.content(st, v)
    if isinstance(c, (PL, PDict)):
        if isinstance(c, PL) and c.kind == "Set" and len(c.items) > 1:
            raise Unsupported("len of a literal set")
        yield st, V(TInt, z3.IntVal(len(c.items)))
        return
    if isinstance(c, PEmpty):
        yield st, V(TInt, z3.IntVal(0))
        return
    if isinstance(c, It):
        if c.kind == "items":
            yield st, V(TInt, z3.IntVal(len(c.items)))
            return
        c = V(c.lty, c.e) if c.kind == "list" else V(TSet(c.ety), c.e)
    if isinstance(c, V):
        k = c.ty.kind
        if k == "List":
            st.assume(L_len(c.e, c.ty) >= 0)
            yield st, V(TInt, L_len(c.e, c.ty))
            return
        if k in ("Set", "Coll"):
            st.assume(card(c.e, c.ty.args[0]) >= 0)
            yield st, V(TInt, card(c.e, c.ty.args[0]))
            return
        if k == "Dict":
            yield st, V(TInt, card(D_dom(c.e, c.ty), c.ty.args[0]))
            return
        if k == "Mat":
            yield st, V(TInt, M_rows(c.e, c.ty))
            return
    h = eng.ext.get("len")
    if h:
        r = h(eng, st, v, node)
        if r is not None:
            yield st, r
            return
    raise Unsupported("len of %r" % (v,), node)


@b("builtins.range")
def _range(eng, st, args, kws, node):
    zs = [eng.to_z3(st, a, TInt) for a in args]
    if len(zs) == 1:
        yield st, RangeV(z3.IntVal(0), zs[0])
    elif len(zs) == 2:
        yield st, RangeV(zs[0], zs[1])
    else:
        raise Unsupported("range step", node)


@b("builtins.enumerate")
def _enum(eng, st, args, kws, node):
    start = eng.to_z3(st, args[1], TInt) if len(args) > 1 else eng.to_z3(st, kws["start"], TInt) if "start" in kws else z3.IntVal(0)
    for s, it in eng.as_iter(st, args[0], node):
        if it.kind == "items":
            yield s, It("items", items=[PTup([V(TInt, z3.simplify(start + i)), x]) for i, x in enumerate(it.items)], deps=it.deps)
            continue
        l, lty = it_list(eng, s, it)
        ety = register(TTup(TInt, lty.args[0]))
        ety2 = register(TList(ety))
        r = fresh("enum", ety2)
        i = z3.Int(fresh_name("i"))
        s.assume(L_len(r, ety2) == L_len(l, lty))
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(l, lty)), L_arr(r, ety2)[i] == T_mk([start + i, L_arr(l, lty)[i]], ety)), patterns=[L_arr(r, ety2)[i]]))
        s.assume(L_dist(r, ety2))
        out = It("list", ety=ety, e=r, lty=ety2, deps=it.deps)
        out.enum_of = (l, lty)
        out.start_nonzero = not (z3.is_int_value(start) and start.as_long() == 0)
        yield s, out


@b("builtins.zip")
def _zip(eng, st, args, kws, node):
    its = [only(eng.as_iter(st, a, node))[1] for a in args]
    if all(i.kind == "items" for i in its):
        yield st, It("items", items=[PTup(list(t)) for t in zip(*[i.items for i in its])])
        return
    if len(its) == 2:
        (a, ta), (b_, tb) = it_list(eng, st, its[0]), it_list(eng, st, its[1])
        ety = register(TTup(ta.args[0], tb.args[0]))
        lty = register(TList(ety))
        r = fresh("zip", lty)
        i = z3.Int(fresh_name("i"))
        n = z3.If(L_len(a, ta) < L_len(b_, tb), L_len(a, ta), L_len(b_, tb))
        st.assume(L_len(r, lty) == n)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), L_arr(r, lty)[i] == T_mk([L_arr(a, ta)[i], L_arr(b_, tb)[i]], ety)), patterns=[L_arr(r, lty)[i]]))
        yield st, It("list", ety=ety, e=r, lty=lty)
        return
    raise Unsupported("zip", node)


def _one_gen(v):
    """(genexp, elt, generator) of a generator expression with a single 'for'"""
    if isinstance(v, GenV) and v.genexp is not None and len(v.genexp.generators) == 1:
        return v.genexp, v.genexp.elt, v.genexp.generators[0]
    return None


def filtered_set(eng, st, gen, sc, extra, node):
    """z3 set of the source items that satisfy the generator's conditions and `extra`(expr) (an AST condition or None);
    the source must have each item once"""
    for s, src in eng.ev(gen.iter, st, sc):
        for s2, it in eng.as_iter(s, src, node):
            if it.kind == "items":
                yield s2, None, it
                continue
            if it.kind == "list":
                eng.oblige(s2, L_dist(it.e, it.lty), "%s: counted items pairwise distinct" % eng.tname(), node, "pre")
                s2.assume(L_dist(it.e, it.lty))
                it = It("set", ety=it.ety, e=L_elems(it.e, it.lty), deps=it.deps)
            elif it.kind == "range":
                e, t = it_set(eng, s2, it)
                it = It("set", ety=t, e=e)
            if it.kind != "set" or not it.unique:
                raise Unsupported("counting items that may repeat", node)
            if not gen.ifs and extra is None:
                yield s2, it.e, it
                continue
            vs, el, val, mem = eng.bind_elem(s2, it)
            sx = s2.copy()
            for f in mem:
                sx.assume(f)
            conds = []
            for cexp in gen.ifs:
                cv = eng.eval_pure(cexp, sx, sc, gen.target, val, cond=True)
                conds.append(cv.e)
                sx.assume(cv.e)
            if extra is not None:
                conds.append(extra(sx, sc, gen.target, val))
            S = fresh("cnt", TSet(it.ety))
            s2.assume(z3.ForAll(vs, S[el] == z3.And(*(mem + conds)), patterns=[S[el]]))
            yield s2, S, it


@b("builtins.sum")
def _sum(eng, st, args, kws, node):
    g = _one_gen(args[0])
    if g:
        gx, elt, gen = g
        if isinstance(elt, ast.Constant) and elt.value == 1:
            for s, S, it in filtered_set(eng, st, gen, args[0].scope, None, node):
                if S is None:
                    if gen.ifs:
                        for s2, it2 in eng.comp_over(gx, gen, s, it, args[0].scope):
                            yield s2, V(TInt, z3.IntVal(len(it2.items)))
                        continue
                    yield s, V(TInt, z3.IntVal(len(it.items)))
                    continue
                s.assume(card(S, it.ety) >= 0)
                yield s, V(TInt, card(S, it.ety))
            return
        # an element that is always 0 or 1 (a condition): count of the items where it is 1
        if isinstance(elt, (ast.IfExp, ast.Compare, ast.BoolOp, ast.Call, ast.UnaryOp)):
            def one(sx, sc, target, val):
                v = eng.eval_pure(elt, sx, sc, target, val)
                if v.ty.kind == "Bool":
                    return v.e
                eng.oblige(sx, z3.Or(v.e == 0, v.e == 1), "%s: summed items are 0 or 1" % eng.tname(), node, "pre")
                return v.e == 1
            for s, S, it in filtered_set(eng, st, gen, args[0].scope, one, node):
                if S is None:
                    raise Unsupported("sum over literal", node)
                s.assume(card(S, it.ety) >= 0)
                yield s, V(TInt, card(S, it.ety))
            return
    h = eng.ext.get("sum")
    if h:
        r = h(eng, st, args, kws, node)
        if r is not None:
            yield st, r
            return
    raise Unsupported("sum", node)


def _quant(eng, st, arg, node, is_all):
    g = _one_gen(arg)
    if g:
        gx, elt, gen = g
        sc = arg.scope
        for s, src in eng.ev(gen.iter, st, sc):
            for s2, it in eng.as_iter(s, src, node):
                if it.once:
                    raise Unsupported("a one-shot iterator is possibly left half used", node)
                if it.kind == "items":
                    for s3, it2 in eng.comp_over(gx, gen, s2, it, sc):
                        fs = [eng.truth(s3, x) for x in it2.items]
                        yield s3, V(TBool, z3.And(*fs) if is_all else z3.Or(*fs)) if fs else V(TBool, z3.BoolVal(is_all))
                    continue
                if it.kind == "range":
                    i = z3.Int(fresh_name("i"))
                    vs, val, mem = [i], V(TInt, i), [it.e[0] <= i, i < it.e[1]]
                else:
                    vs, el, val, mem = eng.bind_elem(s2, it)
                sx = s2.copy()
                for f in mem:
                    sx.assume(f)
                conds = []
                for cexp in gen.ifs:
                    cv = eng.eval_pure(cexp, sx, sc, gen.target, val, cond=True)
                    conds.append(cv.e)
                    sx.assume(cv.e)
                body = eng.eval_pure(elt, sx, sc, gen.target, val, cond=True).e
                if is_all:
                    yield s2, V(TBool, z3.ForAll(vs, z3.Implies(z3.And(*(mem + conds)), body)))
                else:
                    yield s2, V(TBool, z3.Exists(vs, z3.And(*(mem + conds + [body]))))
        return
    for s, it in eng.as_iter(st, arg, node):
        if it.once:
            raise Unsupported("a one-shot iterator is possibly left half used", node)
        if it.kind == "items":
            fs = [eng.truth(s, x) for x in it.items]
            yield s, V(TBool, (z3.And(*fs) if is_all else z3.Or(*fs)) if fs else z3.BoolVal(is_all))
            continue
        vs, el, val, mem = eng.bind_elem(s, it)
        t = eng.truth(s, val)
        yield s, V(TBool, z3.ForAll(vs, z3.Implies(z3.And(*mem), t)) if is_all else z3.Exists(vs, z3.And(*(mem + [t]))))


@b("builtins.all")
def _all(eng, st, args, kws, node):
    yield from _quant(eng, st, args[0], node, True)


@b("builtins.any")
def _any(eng, st, args, kws, node):
    yield from _quant(eng, st, args[0], node, False)


@b("builtins.map")
def _map(eng, st, args, kws, node):
    f = args[0]
    if len(args) == 2:
        for s, it in eng.as_iter(st, args[1], node):
            if it.kind == "items" and len(it.items) <= 8:
                acc = [(s, [])]
                for x in it.items:
                    acc = [(s3, vs + [v]) for s2, vs in acc for s3, v in eng.call(s2, f, [x], {}, node)]
                for s2, vs in acc:
                    yield s2, It("items", items=vs)
            else:
                yield s, It("map", items=(f, [it]))
        return
    yield st, It("map", items=(f, list(args[1:])))


@b("builtins.iter")
def _iter(eng, st, args, kws, node):
    yield from eng.as_iter(st, args[0], node)


@b("builtins.sorted")
def _sorted(eng, st, args, kws, node):
    if kws or len(args) != 1:
        raise Unsupported("sorted with key", node)
    for s, it in eng.as_iter(st, args[0], node):
        if it.kind == "items":
            raise Unsupported("sorted of literal", node)
        l, lty = it_list(eng, s, it)
        r = fresh("sorted", lty)
        s.assume(L_len(r, lty) == L_len(l, lty))
        s.assume(L_elems(r, lty) == L_elems(l, lty))
        s.assume(z3.Implies(L_dist(l, lty), L_dist(r, lty)))
        if lty.args[0].kind == "Int":
            i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
            s.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < L_len(r, lty)), L_arr(r, lty)[i] <= L_arr(r, lty)[j])))
        yield s, eng.alloc(s, V(lty, r))


@b("builtins.isinstance", "builtins.issubclass")
def _isinst(eng, st, args, kws, node):
    v, c = args
    if isinstance(v, SpecF) and getattr(v, "subclass_of", None) is not None:
        yield st, V(TBool, z3.BoolVal(isinstance(c, ClassV) and c.info.qual in v.subclass_of))
        return
    if isinstance(v, ObjRef) and isinstance(c, ClassV):
        ci = eng.class_info(st.objs[v.oid].cls)
        if ci is not None:
            yield st, V(TBool, z3.BoolVal(any(x.qual == c.info.qual for x in eng.prog.mro(ci))))
            return
    if isinstance(v, ClassV) and isinstance(c, ClassV):
        yield st, V(TBool, z3.BoolVal(any(x.qual == c.info.qual for x in eng.prog.mro(v.info))))
        return
    h = eng.ext.get("isinstance")
    if h:
        r = h(eng, st, v, c, node)
        if r is not None:
            yield st, r
            return
    kinds = {"builtins.list": "List", "builtins.set": "Set", "builtins.dict": "Dict", "builtins.int": "Int", "builtins.str": "Str",
             "builtins.float": "Real", "builtins.bool": "Bool", "builtins.tuple": "Tup"}
    if isinstance(c, ExtV) and c.name in kinds:
        if isinstance(v, PTup):
            yield st, V(TBool, z3.BoolVal(c.name == "builtins.tuple"))
            return
        t = eng.type_of(st, v)
        if t is not None and t.kind in ("List", "Set", "Dict", "Int", "Str", "Real", "Bool"):
            yield st, V(TBool, z3.BoolVal(kinds[c.name] == t.kind))
            return
    if v is NONE:
        yield st, V(TBool, z3.BoolVal(False))
        return
    raise Unsupported("isinstance", node)


@b("builtins.type")
def _type(eng, st, args, kws, node):
    v = args[0]
    if isinstance(v, ObjRef):
        ci = eng.class_info(st.objs[v.oid].cls)
        if ci is not None:
            yield st, ClassV(ci)
            return
        ext = eng.classspec.get(st.objs[v.oid].cls, {}).get("__ext__")
        if ext is not None:
            yield st, ExtV(ext)
            return
    h = eng.ext.get("type")
    if h:
        r = h(eng, st, v, node)
        if r is not None:
            yield st, r
            return
    t = eng.type_of(st, v)
    m = {"Int": "int", "Str": "str", "Real": "float", "Bool": "bool", "List": "list", "Set": "set", "Dict": "dict"}
    if t is not None and t.kind in m and (isinstance(v, Ref) or t.kind in ("Int", "Str", "Real", "Bool")):
        yield st, ExtV("builtins." + m[t.kind])
        return
    if isinstance(v, PTup) or isinstance(v, V) and t.kind in ("Coll", "List"):
        yield st, ExtV("builtins.tuple")
        return
    if v is NONE:
        yield st, ExtV("builtins.NoneType")
        return
    raise Unsupported("type()", node)


def _minmax(is_max):
    def f(eng, st, args, kws, node):
        if kws:
            raise Unsupported("min/max with key", node)
        if len(args) >= 2:
            t = TReal if any(eng.type_of(st, a) == TReal for a in args) else TInt
            zs = [eng.to_z3(st, a, t) for a in args]
            r = zs[0]
            for z in zs[1:]:
                r = z3.If(z > r, z, r) if is_max else z3.If(z < r, z, r)
            yield st, V(t, r)
            return
        for s, it in eng.as_iter(st, args[0], node):
            e, t = it_set(eng, s, it)
            eng.raise_path(s, e == empty_set(t), "ValueError", node)
            s.assume(e != empty_set(t))
            m, x = fresh("ext", t), z3.Const(fresh_name("x"), sort(t))
            s.assume(e[m])
            s.assume(z3.ForAll([x], z3.Implies(e[x], x <= m if is_max else x >= m), patterns=[e[x]]))
            yield s, V(t, m)
    return f


BUILTINS["builtins.max"] = _minmax(True)
BUILTINS["builtins.min"] = _minmax(False)


@b("builtins.abs")
def _abs(eng, st, args, kws, node):
    v = args[0]
    yield st, V(v.ty, z3.If(v.e < 0, -v.e, v.e))


@b("builtins.bool")
def _bool(eng, st, args, kws, node):
    yield st, V(TBool, eng.truth(st, args[0]))


@b("builtins.int")
def _int(eng, st, args, kws, node):
    v = args[0]
    if isinstance(v, V) and v.ty.kind in ("Int", "Bool"):
        yield st, V(TInt, eng.to_z3(st, v, TInt))
        return
    raise Unsupported("int()", node)


@b("builtins.float")
def _float(eng, st, args, kws, node):
    yield st, V(TReal, eng.to_z3(st, args[0], TReal))


@b("builtins.str", "builtins.repr")
def _str(eng, st, args, kws, node):
    v = args[0]
    if isinstance(v, PStr):
        yield st, v
        return
    h = eng.ext.get("str")
    if h:
        r = h(eng, st, v, node)
        if r is not None:
            yield st, r
            return
    yield st, PStr([v])


# ---- itertools
def pairs_it(eng, st, l, lty, ordered):
    E = lty.args[0]
    ety = register(TTup(E, E))
    S = fresh("pairs", TSet(ety))
    u, v = z3.Const(fresh_name("u"), sort(E)), z3.Const(fresh_name("v"), sort(E))
    el = L_elems(l, lty)
    t = T_mk([u, v], ety)
    if ordered:
        cond = z3.And(el[u], el[v], u != v)
    else:
        cond = z3.And(el[u], el[v], L_idx(l, u, lty) < L_idx(l, v, lty))
    st.assume(z3.ForAll([u, v], S[t] == cond, patterns=[S[t]]))
    return It("set", ety=ety, e=S, unique=True)


def _combos(ordered):
    def f(eng, st, args, kws, node):
        k = args[1] if len(args) > 1 else kws.get("r")
        if k is None:
            raise Unsupported("combinations", node)
        for s, it in eng.as_iter(st, args[0], node):
            ks = z3.simplify(eng.to_z3(s, k, TInt))
            if it.kind == "items" and z3.is_int_value(ks):
                import itertools
                fn = itertools.permutations if ordered else itertools.combinations
                yield s, It("items", items=[PTup(list(t)) for t in fn(it.items, ks.as_long())])
                continue
            l, lty = it_list(eng, s, it, need_dist=True, node=node)
            if z3.is_int_value(ks) and ks.as_long() == 2:
                r = pairs_it(eng, s, l, lty, ordered)
                r.deps = ()
                yield s, r
                continue
            if ordered:
                raise Unsupported("permutations of symbolic length", node)
            E = lty.args[0]
            eng.raise_path(s, ks < 0, "ValueError", node)
            s.assume(ks >= 0)
            C = register(TFSet(E))
            S = fresh("combs", TSet(C))
            Z = z3.Const(fresh_name("Z"), sort(C))
            s.assume(z3.ForAll([Z], S[Z] == z3.And(ssub(Z, L_elems(l, lty), E), card(Z, E) == ks), patterns=[S[Z]]))
            yield s, It("set", ety=C, e=S, unique=True)
    return f


BUILTINS["itertools.combinations"] = _combos(False)
BUILTINS["itertools.permutations"] = _combos(True)


@b("itertools.product")
def _product(eng, st, args, kws, node):
    if len(args) != 2 or kws:
        raise Unsupported("product", node)
    for s, a in eng.as_iter(st, args[0], node):
        for s2, b_ in eng.as_iter(s, args[1], node):
            if a.kind == "items" and b_.kind == "items":
                yield s2, It("items", items=[PTup([x, y]) for x in a.items for y in b_.items])
                continue
            ea, ta = it_set(eng, s2, a)
            eb, tb = it_set(eng, s2, b_)
            ety = register(TTup(ta, tb))
            S = fresh("prod", TSet(ety))
            u, v = z3.Const(fresh_name("u"), sort(ta)), z3.Const(fresh_name("v"), sort(tb))
            t = T_mk([u, v], ety)
            s2.assume(z3.ForAll([u, v], S[t] == z3.And(ea[u], eb[v]), patterns=[S[t]]))
            uniq = True
            for x in (a, b_):
                if x.kind == "list":
                    eng.oblige(s2, L_dist(x.e, x.lty), "%s: product items distinct" % eng.tname(), node, "pre")
                elif x.kind == "set" and not x.unique:
                    uniq = False
            yield s2, It("set", ety=ety, e=S, unique=uniq)


# ---- copy
def deep(eng, st, v, memo):
    if isinstance(v, Ref):
        if v.path:
            c = eng.content(st, v)
            return eng.alloc(st, c)
        if v.cid in memo:
            return memo[v.cid]
        c = st.heap[v.cid].c
        if isinstance(c, PL):
            c = PL([deep(eng, st, x, memo) for x in c.items], c.kind)
        elif isinstance(c, PDict):
            c = PDict({k: deep(eng, st, x, memo) for k, x in c.items.items()})
        r = eng.alloc(st, c)
        memo[v.cid] = r
        return r
    if isinstance(v, ObjRef):
        if ("o", v.oid) in memo:
            return memo[("o", v.oid)]
        o = st.objs[v.oid]
        r = eng.new_obj(st, o.cls)
        memo[("o", v.oid)] = r
        st.objs[r.oid].fields = {k: deep(eng, st, x, memo) for k, x in o.fields.items()}
        return r
    if isinstance(v, PTup):
        return PTup([deep(eng, st, x, memo) for x in v.items], v.names, v.cls)
    if isinstance(v, OptV):
        return OptV(v.isnone, deep(eng, st, v.val, memo))
    return v


@b("copy.deepcopy")
def _deepcopy(eng, st, args, kws, node):
    yield st, deep(eng, st, args[0], {})


@b("copy.copy")
def _copy(eng, st, args, kws, node):
    v = args[0]
    if isinstance(v, Ref) and not v.path and not v_nested(eng, st, v):
        yield st, deep(eng, st, v, {})
        return
    raise Unsupported("copy.copy", node)


def v_nested(eng, st, v):
    c = st.heap[v.cid].c
    if isinstance(c, V):
        return any(a.mutable for a in c.ty.args)
    return isinstance(c, PL) and any(isinstance(x, (Ref, ObjRef)) for x in c.items)


# ---- numpy: small integer matrices
@b("numpy.zeros")
def _zeros(eng, st, args, kws, node):
    shp = args[0] if args else kws["shape"]
    dt = kws.get("dtype")
    nm = dt.name if isinstance(dt, ExtV) else dt.const if isinstance(dt, PStr) else None
    ety = TInt if nm in ("builtins.int", "int", "numpy.int64", "numpy.int32") else TBool if nm in ("builtins.bool", "bool") else TReal
    zero = z3.IntVal(0) if ety == TInt else z3.BoolVal(False) if ety == TBool else z3.RealVal(0)
    if isinstance(shp, PTup) and len(shp.items) == 2:
        ty = register(TMat(ety))
        r, c = (eng.to_z3(st, x, TInt) for x in shp.items)
        yield st, eng.alloc(st, V(ty, M_mk(r, c, z3.K(z3.IntSort(), z3.K(z3.IntSort(), zero)), ty)))
        return
    if isinstance(shp, PTup) and len(shp.items) == 1:
        shp = shp.items[0]
    if isinstance(shp, V) and shp.ty == TInt:
        ty = register(TList(ety))
        st.assume(shp.e >= 0)
        yield st, eng.alloc(st, V(ty, L_mk(shp.e, z3.K(z3.IntSort(), zero), ty)))
        return
    raise Unsupported("numpy.zeros", node)


@b("numpy.dtype")
def _dtype(eng, st, args, kws, node):
    yield st, args[0]


def h_setitem(eng, st, base, k, val, node):
    if isinstance(base, Ref):
        c = eng.content(st, base)
        if isinstance(c, V) and c.ty.kind == "Mat" and isinstance(k, PTup) and len(k.items) == 2:
            i, j = (eng.to_z3(st, x, TInt) for x in k.items)
            x = eng.to_z3(st, val, c.ty.args[0])
            i, j = mat_index(eng, st, c, i, j, node)
            a = M_arr(c.e, c.ty)
            eng.set_content(st, base, V(c.ty, M_mk(M_rows(c.e, c.ty), M_cols(c.e, c.ty), z3.Store(a, i, z3.Store(a[i], j, x)), c.ty)))
            yield st


def mat_index(eng, st, c, i, j, node):
    r, co = M_rows(c.e, c.ty), M_cols(c.e, c.ty)
    bad = z3.Or(i < -r, i >= r, j < -co, j >= co)
    eng.raise_path(st, bad, "IndexError", node)
    st.assume(z3.Not(bad))
    i = i if z3.is_int_value(i) and i.as_long() >= 0 else z3.If(i < 0, i + r, i)
    j = j if z3.is_int_value(j) and j.as_long() >= 0 else z3.If(j < 0, j + co, j)
    return i, j


def h_getitem(eng, st, base, k, node):
    c = eng.content(st, base) if isinstance(base, Ref) else base
    if isinstance(c, V) and c.ty.kind == "Mat" and isinstance(k, PTup) and len(k.items) == 2:
        i, j = (eng.to_z3(st, x, TInt) for x in k.items)
        i, j = mat_index(eng, st, c, i, j, node)
        return V(c.ty.args[0], M_arr(c.e, c.ty)[i][j])
    return None


def h_getattr(eng, st, v, attr, node):
    c = None
    if isinstance(v, Ref):
        try:
            c = eng.content(st, v)
        except Unsupported:
            return None
    elif isinstance(v, V):
        c = v
    if isinstance(c, V) and c.ty.kind == "Mat":
        if attr == "T":
            t = fresh("T", c.ty)
            i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
            st.assume(M_rows(t, c.ty) == M_cols(c.e, c.ty))
            st.assume(M_cols(t, c.ty) == M_rows(c.e, c.ty))
            st.assume(z3.ForAll([i, j], M_arr(t, c.ty)[i][j] == M_arr(c.e, c.ty)[j][i], patterns=[M_arr(t, c.ty)[i][j]]))
            return eng.alloc(st, V(c.ty, t))
        if attr == "shape":
            return PTup([V(TInt, M_rows(c.e, c.ty)), V(TInt, M_cols(c.e, c.ty))])
    return None


BUILTINS["setitem"] = h_setitem
BUILTINS["getitem"] = h_getitem
BUILTINS["getattr"] = h_getattr


def h_compare(eng, st, op, a, b_, node):
    """element-wise comparison of matrices"""
    ca = eng.content(st, a) if isinstance(a, Ref) and not a.path else a
    cb = eng.content(st, b_) if isinstance(b_, Ref) and not b_.path else b_
    if isinstance(ca, V) and isinstance(cb, V) and ca.ty.kind == "Mat" and cb.ty == ca.ty and isinstance(op, ast.Eq):
        ty = register(TMat(TBool))
        m = fresh("eqm", ty)
        same = z3.And(M_rows(ca.e, ca.ty) == M_rows(cb.e, cb.ty), M_cols(ca.e, ca.ty) == M_cols(cb.e, cb.ty))
        eng.oblige(st, same, "%s: compared matrices have equal shapes" % eng.tname(), node, "pre")
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        st.assume(z3.And(M_rows(m, ty) == M_rows(ca.e, ca.ty), M_cols(m, ty) == M_cols(ca.e, ca.ty)))
        st.assume(z3.ForAll([i, j], M_arr(m, ty)[i][j] == (M_arr(ca.e, ca.ty)[i][j] == M_arr(cb.e, cb.ty)[i][j]), patterns=[M_arr(m, ty)[i][j], M_arr(ca.e, ca.ty)[i][j], M_arr(cb.e, cb.ty)[i][j]]))
        return eng.alloc(st, V(ty, m))
    return None


def h_method(eng, st, recv, name, args, kws, node):
    c = None
    if isinstance(recv, Ref):
        c = eng.content(st, recv)
    if isinstance(c, V) and c.ty.kind == "Mat" and name in ("all", "any") and not args:
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        rng = z3.And(0 <= i, i < M_rows(c.e, c.ty), 0 <= j, j < M_cols(c.e, c.ty))
        x = M_arr(c.e, c.ty)[i][j]
        x = x if c.ty.args[0] == TBool else x != 0
        f = z3.ForAll([i, j], z3.Implies(rng, x)) if name == "all" else z3.Exists([i, j], z3.And(rng, x))
        return [(st, V(TBool, f))]
    if isinstance(c, V) and c.ty.kind == "Mat" and name == "copy":
        return [(st, eng.alloc(st, c))]
    return None


BUILTINS["compare"] = h_compare
BUILTINS["method"] = h_method
