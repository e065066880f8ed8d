"""Contract of the tabular input adapter: what the function it returns hands to the adapted method."""
from contracts.base import *
from contracts.digraph import none
from contracts.caches import TArr
from pyver.numpy_model import TFrame, TOther, fn, extent, TShape

CLASSES["Thing"] = {"__class__": "Thing"}
TColumns = TOpq("Columns")
values = lambda f: fn("frame_values", TFrame, TArr)(f)
columns = lambda f: fn("column_names", TColumns, TNL)(fn("columns", TFrame, TColumns)(f))


def omitted(eng, st, n):
    return "omitted"


TExtra = register(TOpq("Extra"))


def recorder(eng, st, n):
    """the adapted method: notes what it is given and answers with some value"""
    def f(e, s, args, kws, node):
        s.ghost["calls"] = s.ghost.get("calls", ()) + ((tuple(args), tuple(sorted(kws.items()))),)
        yield s, V(TExtra, z3.Const("answer", sort(TExtra)))
    return SpecF("method", f)


@contract("cdmir.utils.adapters.data_form_converter_for_class_method")
class _(Contract):
    params = {"func": recorder, "self": "Thing", "more": TExtra, "other": TExtra}
    arguments = ("self", "data", "var_names", "more", "other")
    variants = tuple({"data": d, "var_names": v} for d in (TArr, TFrame, TOther) for v in (none, TNL, omitted))

    def variant_name(self, v):
        n = v["var_names"]
        return "%s, %s" % ({"Arr": "array", "Frame": "frame"}.get(v["data"].kind[4:], "other input"), "names given" if n is TNL else "no names (%s)" % ("None" if n is none else "omitted"))

    def exercise(self, c, node):
        a = c.args
        omitted = not isinstance(a["var_names"], Ref) and a["var_names"] is not NONE
        for extra in ((), (a["more"],)) if not omitted else ((),):
            for s, v in c.eng.call(c.st.copy(), c.result, [a["self"], a["data"]] + ([] if omitted else [a["var_names"]]) + list(extra), {"other": a["other"]}, node):
                s.ghost["extra"] = extra
                yield s, v
        for s, v in c.eng.call(c.st.copy(), c.result, [a["self"]], dict({"data": a["data"], "other": a["other"]}, **({} if omitted else {"var_names": a["var_names"]})), node):
            s.ghost["extra"] = ()
            yield s, v

    def array(self, c):
        d = c.args["data"]
        return d.e if d.ty.kind == "Opq_Arr" else values(d.e) if d.ty.kind == "Opq_Frame" else None

    def given(self, c):
        v = c.args["var_names"]
        return c.val(v, TNL, c.old) if isinstance(v, Ref) else None

    def raises(self, c):
        a, g = self.array(c), self.given(c)
        if a is None:
            return {"AssertionError": z3.BoolVal(True)}
        return {"AssertionError": L_len(g, TNL) != extent(a, 1)} if g is not None else {}

    def ensures(self, c):
        calls = c.st.ghost.get("calls", ())
        out = [("the adapted method is called once", z3.BoolVal(len(calls) == 1))]
        if len(calls) != 1:
            return out
        pos, kws = calls[0]
        kws = dict(kws)
        got = dict(zip(("self", "data", "var_names"), pos))
        clash = set(got) & set(kws)
        got.update({k: v for k, v in kws.items() if k in ("self", "data", "var_names")})
        rest, more = tuple(pos[3:]), {k: v for k, v in kws.items() if k not in ("self", "data", "var_names")}
        same = lambda x, y: isinstance(x, V) and isinstance(y, V) and x.e.eq(y.e)
        out.append(("object, data and names are passed once each", z3.BoolVal(not clash and set(got) == {"self", "data", "var_names"} and len(pos) + len(kws) == 3 + len(rest) + len(more))))
        extra = c.st.ghost["extra"]
        out.append(("further arguments are passed on", z3.BoolVal(len(rest) == len(extra) and all(same(x, y) for x, y in zip(rest, extra)) and set(more) == {"other"} and same(more["other"], c.args["other"]))))
        out.append(("its answer is returned", c.val(c.result, TExtra) == z3.Const("answer", sort(TExtra))))
        if clash or set(got) != {"self", "data", "var_names"}:
            return out
        me, d, n = got["self"], got["data"], got["var_names"]
        out.append(("the object is passed on", z3.BoolVal(isinstance(me, ObjRef) and me.oid == c.args["self"].oid)))
        out.append(("the values come as an array", c.val(d, TArr) == self.array(c) if isinstance(d, V) and d.ty.kind == "Opq_Arr" else z3.BoolVal(False)))
        g, data = self.given(c), c.args["data"]
        ty = c.eng.type_of(c.st, n)
        i = z3.Int(fresh_name("i"))
        w = c.eng.to_z3(c.st, n, ty) if ty is not None and ty.kind == "List" else None
        if w is None:
            return out + [("the names are a list", z3.BoolVal(False))]
        out.append(("one name per column", L_len(w, ty) == extent(self.array(c), 1)))
        if g is not None:
            f = c.eng.z_eq(c.st, w, g, ty) if ty == TNL else z3.BoolVal(False)
        elif data.ty.kind == "Opq_Frame":
            f = c.eng.z_eq(c.st, w, columns(data.e), ty) if ty == TNL else z3.BoolVal(False)
        else:
            f = FA([i], z3.Implies(z3.And(0 <= i, i < L_len(w, ty)), L_arr(w, ty)[i] == i), [L_arr(w, ty)[i]]) if ty.args[0] == TInt else z3.BoolVal(False)
        return out + [("the names are those given, else the columns of the frame, else the positions", f)]
