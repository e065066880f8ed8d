"""Opaque numpy arrays and pandas frames: values with attributes, never modified in place by the code that is read
(an assignment into one is outside the subset).  Trusted facts are stated where they are introduced."""
import z3
from .theory import *
from .values import *
from .builtins_model import BUILTINS, b

TArr, TFrame = register(TOpq("Arr")), register(TOpq("Frame"))
TShape, TDType, TBytes = register(TOpq("Shape")), register(TOpq("DType")), register(TOpq("Bytes"))
TOther = register(TOpq("Other"))
CLASS_OF = {"Opq_Other": "some other type", "Opq_Arr": "numpy.ndarray", "Opq_Frame": "pandas.DataFrame"}


def opq(v, kind):
    return isinstance(v, V) and v.ty.kind == "Opq_" + kind


def fn(name, *tys):
    return fun(name, *[sort(t) for t in tys])


def enum_type(cls):
    return register(TOpq("Enum_" + cls.name))


def enum_member(eng, st, cls, name):
    """members of a plain Enum class: distinct constants, one per value"""
    import ast
    t = enum_type(cls)
    vals, first = {}, {}
    for n, e in cls.attrs.items():
        first.setdefault(ast.dump(e), n)
        vals[n] = first[ast.dump(e)]      # equal values make aliases of one member
    ms = [z3.Const("%s.%s" % (cls.name, n), sort(t)) for n in sorted(set(vals.values()))]
    if len(ms) > 1:
        st.assume(z3.Distinct(*ms))
    return V(t, z3.Const("%s.%s" % (cls.name, vals[name]), sort(t)))


def getattr_hook(eng, st, v, attr, node):
    if opq(v, "Arr"):
        if attr == "shape":
            return V(TShape, fn("shape", TArr, TShape)(v.e))
        if attr == "dtype":
            return V(TDType, fn("dtype", TArr, TDType)(v.e))
        if attr == "T":
            return V(TArr, fn("transpose", TArr, TArr)(v.e))
    if opq(v, "Frame"):
        if attr == "values":
            return V(TArr, fn("frame_values", TFrame, TArr)(v.e))
        if attr == "shape":
            return V(TShape, fn("shape", TArr, TShape)(fn("frame_values", TFrame, TArr)(v.e)))
        if attr == "columns":
            return V(register(TOpq("Columns")), fn("columns", TFrame, TOpq("Columns"))(v.e))
    if opq(v, "DType") and attr in ("str", "name", "kind", "char"):
        return V(TStr, fn("dtype_" + attr, TDType, TStr)(v.e))
    if isinstance(v, V) and v.ty.kind.startswith("Opq_Enum_"):
        cls = eng.enum_classes.get(v.ty.kind)
        if cls is not None and attr in cls.attrs:
            return enum_member(eng, st, cls, attr)
    return None


def same_array(st, a, b):
    """trusted: numeric arrays of the same shape, element type and bytes hold the same values"""
    sh, dt, by, ds = fn("shape", TArr, TShape), fn("dtype", TArr, TDType), fn("tobytes", TArr, TBytes), fn("dtype_str", TDType, TStr)


def array_axiom():
    x, y = z3.Const("ax", sort(TArr)), z3.Const("ay", sort(TArr))
    sh, dt, by, ds = fn("shape", TArr, TShape), fn("dtype", TArr, TDType), fn("tobytes", TArr, TBytes), fn("dtype_str", TDType, TStr)
    return z3.ForAll([x, y], z3.Implies(z3.And(by(x) == by(y), sh(x) == sh(y), ds(dt(x)) == ds(dt(y))), x == y), patterns=[z3.MultiPattern(by(x), by(y))])


def method_hook(eng, st, v, name, args, kws, node):
    if opq(v, "Arr"):
        if name == "tobytes" and not args and not kws:
            st.assume(array_axiom())
            return [(st, V(TBytes, fn("tobytes", TArr, TBytes)(v.e)))]
        if name == "copy" and not args:
            return [(st, v)]
        if name == "tolist" and not args:
            return [(st, V(register(TOpq("NestedList")), fn("tolist", TArr, TOpq("NestedList"))(v.e)))]
    if opq(v, "Frame"):
        if name in ("to_numpy", "copy") and not args and not kws:
            return [(st, V(TArr, fn("frame_values", TFrame, TArr)(v.e)) if name == "to_numpy" else v)]
    if opq(v, "Columns") and name in ("tolist", "to_list"):
        return BUILTINS["builtins.list"](eng, st, [v], {}, node)
    return None


def extent(a, k):
    return fn("extent", TShape, TInt, TInt)(fn("shape", TArr, TShape)(a), z3.IntVal(k))


def iter_hook(eng, st, v, node):
    """columns of a frame as a list of names"""
    if opq(v, "Columns"):
        ty = register(TList(TNode))
        e = fn("column_names", TOpq("Columns"), ty)(v.e)
        f = z3.Const("cf", sort(TFrame))
        names = fn("column_names", TOpq("Columns"), ty)(fn("columns", TFrame, TOpq("Columns"))(f))
        st.assume(z3.ForAll([f], L_len(names, ty) == extent(fn("frame_values", TFrame, TArr)(f), 1), patterns=[names]))     # as many names as columns of values
        return It("list", ety=TNode, e=e, lty=ty)
    return None


def item_hook(eng, st, v, k, node):
    if opq(v, "Shape") and isinstance(k, V) and k.ty.kind == "Int":
        n = fn("extent", TShape, TInt, TInt)(v.e, k.e)
        st.assume(n >= 0)
        return V(TInt, n)
    return None


def type_hook(eng, st, v, node):
    if isinstance(v, V) and v.ty.kind in CLASS_OF:
        return ExtV(CLASS_OF[v.ty.kind])
    return None


def chain(name, h):
    """after the hooks that are there already"""
    f = BUILTINS.get(name)
    BUILTINS[name] = h if f is None else lambda *a: (lambda r: h(*a) if r is None else r)(f(*a))


for _n, _h in (("getattr", getattr_hook), ("method", method_hook), ("type", type_hook), ("iter", iter_hook), ("item", item_hook)):
    chain(_n, _h)


@b("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.copy")
def _asarray(eng, st, args, kws, node):
    v = args[0]
    if len(args) == 1 and not kws and opq(v, "Arr"):
        yield st, v
    elif len(args) == 1 and not kws and opq(v, "Frame"):
        yield st, V(TArr, fn("frame_values", TFrame, TArr)(v.e))
    else:
        raise Unsupported("array()", node)


@b("numpy.shape")
def _shape(eng, st, args, kws, node):
    if opq(args[0], "Arr") or opq(args[0], "Frame"):
        yield st, getattr_hook(eng, st, args[0], "shape", node)
    else:
        raise Unsupported("shape()", node)


@b("builtins.hash")
def _hash(eng, st, args, kws, node):
    """some integer determined by the value; different values may share it"""
    v = args[0]
    eng.hashable(st, v, node)

    def term(x):
        if isinstance(x, PTup):
            es = [term(y) for y in x.items]
            return fun("hash_tuple%d" % len(es), *[z3.IntSort()] * (len(es) + 1))(*es) if es else z3.Int("hash_empty")
        if x is NONE:
            return z3.Int("hash_none")
        e = eng.str_z3(st, x) if isinstance(x, PStr) else eng.to_z3(st, x)
        return fun("hash_" + str(e.sort()), e.sort(), z3.IntSort())(e)
    yield st, V(TInt, term(v))
