"""Verifies one function of the real code against its contract: builds every obligation and discharges it."""
import time
import traceback
import z3
from .theory import *
from .values import *
from .program import Program
from .engine import Engine, State, Scope, Ctx, Contract, Out, conj, UNDEF
from . import solve as S


class Target:
    def __init__(self, qual, label, ct, old, args):
        self.qual, self.label, self.ct, self.old, self.args = qual, label, ct, old, args


def fresh_object(eng, st, cls):
    """an arbitrary object of a modelled class"""
    spec = eng.classspec[cls]
    ref = eng.new_obj(st, cls)
    for f, ty in spec.items():
        if f.startswith("__") and f.endswith("__"):
            continue
        st.objs[ref.oid].fields[f] = eng.havoc_value(st, ty, f) if isinstance(ty, Ty) else ty(eng, st, f)
    return ref


def make_param(eng, st, name, spec):
    if isinstance(spec, Ty):
        register(spec)
        if spec.kind == "Tup":
            return eng.wrap(spec, fresh(name, spec))
        return eng.havoc_value(st, spec, name)
    if isinstance(spec, str):
        return fresh_object(eng, st, spec)
    if callable(spec):
        return spec(eng, st, name)
    return spec


def generate(prog, registry, classspec, qual, receiver=None, variant=None, externals=None):
    """-> (engine, target label).  Raises Unsupported / BindError when the code leaves the verifier's subset."""
    ct = registry[qual]
    info = prog.find(getattr(ct, "real_qual", None) or qual)
    if info is None or not hasattr(info, "is_gen"):
        raise Unsupported("function %s not found" % qual)
    eng = Engine(prog, registry, {k: dict(v) for k, v in classspec.items()}, externals)
    eng.modules_used[info.module.name] = info.module
    st = State()
    if getattr(ct, "history", False):
        me = fresh_object(eng, st, receiver) if info.cls is not None and not info.is_static else None
        label = qual.split("cdmir.")[-1] + ("[%s]" % receiver if receiver else "") + ("{%s}" % ct.variant_name(variant) if variant else "")
        starts = [(label, st)]
        for w in ct.variants:
            s1 = st.copy()
            a1 = build_args(eng, s1, ct, info, qual, receiver, w, me)
            starts += [("%s after a query {%s}" % (label, ct.variant_name(w)), s) for s in earlier(eng, s1, a1, ct, info, qual, label)]
        eng.nret, eng.vacuity = 0, True
        for lab, s in starts:
            if lab != label and hasattr(ct, "between"):
                ct.between(eng, s, me)
            s.ghost.pop("pmap_keys", None)
            args = build_args(eng, s, ct, info, qual, receiver, variant, me)
            eng.sinks = [[]]
            run(eng, s, args, ct, info, qual, lab)
        return eng
    args = build_args(eng, st, ct, info, qual, receiver, variant)
    label = qual.split("cdmir.")[-1] + ("[%s]" % receiver if receiver else "") + ("{%s}" % ct.variant_name(variant) if variant else "")
    eng.nret, eng.vacuity = 0, True
    run(eng, st, args, ct, info, qual, label)
    return eng


def earlier(eng, st, args, ct, info, qual, label):
    """states after one arbitrary earlier query (its own obligations are those of the run on a fresh object)"""
    old = st.copy()
    eng.target = Target(qual, label, ct, old, args)
    for _, f in ct.requires(Ctx(eng, st, old, args, ct=ct)):
        st.assume(f)
    fid = eng.new_id()
    st.frames[fid] = dict(args)
    eng.fid_stack.append(fid)
    eng.sinks, n = [[]], len(eng.obls)
    outs = eng.exec_block(info.node.body, st, Scope(fid, info, None, args.get("self")))
    del eng.obls[n:]
    eng.fid_stack.pop()
    ends = [o.st for o in outs] + [r[0] for r in eng.sinks[0]]
    return [s for s in ends if eng.feasible(s)]


def build_args(eng, st, ct, info, qual, receiver, variant, me=None):
    args = {}
    a = info.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        names.append(a.vararg.arg)
    if a.kwarg:
        names.append(a.kwarg.arg)
    params = dict(ct.params)
    if variant:
        params.update(variant)
    for i, n in enumerate(names):
        if i == 0 and info.cls is not None and not info.is_static and n == "self":
            args[n] = me if me is not None else fresh_object(eng, st, receiver)
        elif n in params:
            args[n] = make_param(eng, st, n, params[n])
        elif n in getattr(ct, "bind_positional", {}):
            args[n] = make_param(eng, st, n, ct.bind_positional[n])
        else:
            # a parameter the contract does not know: it must have a default
            ndef = len(a.defaults)
            pos = [x.arg for x in a.posonlyargs + a.args]
            if n in pos and pos.index(n) >= len(pos) - ndef:
                d = a.defaults[pos.index(n) - (len(pos) - ndef)]
                args[n] = eng.ev1(d, st, Scope(eng.new_id(), info))[1]
            else:
                raise Unsupported("parameter %s of %s is not in the contract" % (n, qual))
    for n in getattr(ct, "arguments", ()):
        args[n] = make_param(eng, st, n, params[n])
    return args


def run(eng, st, args, ct, info, qual, label):
    """the body of the function from this state, with every obligation of its contract"""
    setup = getattr(ct, "setup", None)
    if setup:
        setup(eng, st, args)
    old = st.copy()
    eng.target = Target(qual, label, ct, old, args)
    c = Ctx(eng, st, old, args, ct=ct)
    pre = list(ct.requires(c))
    for lbl, f in pre:
        st.assume(f)
    old.facts = list(st.facts)
    eng.vacuity = eng.vacuity and eng.feasible(st)
    raises = ct.raises(Ctx(eng, old, old, args, ct=ct))
    if info.is_gen:
        pre_st = old.copy()
        pre_st.facts = list(st.facts)
        kind, e, ety = ct.yields(Ctx(eng, pre_st, old, args, ct=ct))
        st.facts = list(pre_st.facts)
        register(ety)
        if kind == "list":
            st.ghost["yielded"] = V(ety, empty(ety))
        else:
            st.ghost["yielded"] = V(TSet(ety), empty_set(ety))
            st.ghost["ycount"] = V(TInt, z3.IntVal(0))

        def handler(s, v, y):
            g = s.ghost["yielded"]
            if kind == "list":
                x = eng.to_z3(s, v, ety.args[0])
                s.ghost["yielded"] = V(ety, eng.list_append(s, g.e, x, ety))
            else:
                x = eng.to_z3(s, v, ety)
                if kind == "set":
                    eng.oblige(s, z3.Not(g.e[x]), "%s: item yielded at most once" % label, y, "yield")
                eng.oblige(s, e[x], "%s: only prescribed items are yielded" % label, y, "yield")
                s.ghost["yielded"] = V(TSet(ety), sadd(g.e, x))
            for lbl, f in (ct.at_yield(Ctx(eng, s, old, args, ct=ct, yielded=s.ghost["yielded"]), v) if hasattr(ct, "at_yield") else []):
                eng.oblige(s, f, "%s: at yield: %s" % (label, lbl), y, "yield")
            return [Out("next", s)]
        eng.yield_handlers.append(handler)
    fid = eng.new_id()
    st.frames[fid] = dict(args)
    sc = Scope(fid, info, None, args.get("self"))
    if info.name == "__new__":
        sc.self_val = args.get(next(iter(args)))
    eng.fid_stack.append(fid)
    outs = eng.exec_block(info.node.body, st, sc)
    nret = 0
    if getattr(ct, "exercise", None):
        # the contract speaks about what the returned function does: call it, with the arguments of the contract
        more = []
        for o in outs:
            if o.kind == "return" and eng.feasible(o.st):
                for s, v in ct.exercise(Ctx(eng, o.st, old, args, result=o.val, scope=sc, ct=ct), info.node):
                    x = Out("return", s)
                    x.val = v
                    more.append(x)
            elif o.kind != "return":
                raise Unsupported("no function is returned")
        outs = more
    for o in outs:
        if o.kind not in ("next", "return"):
            raise Unsupported("control flow %s at function end" % (o.kind,))
        if not eng.feasible(o.st):
            continue
        nret += 1
        s = o.st
        val = o.val if o.kind == "return" else NONE
        c = Ctx(eng, s, old, args, result=val, scope=sc, ct=ct, yielded=s.ghost.get("yielded"))
        node = info.node
        if ct.at_exit:
            ct.at_exit(c)
        if info.is_gen:
            if kind == "list":
                f = eng.z_eq(s, s.ghost["yielded"].e, e, ety)
            else:
                f = s.ghost["yielded"].e == e
                x = z3.Const(fresh_name("yx"), sort(ety))
                f = z3.ForAll([x], z3.Implies(e[x], s.ghost["yielded"].e[x]))
            eng.oblige(s, f, "%s: every prescribed item is yielded%s" % (label, " in order" if kind == "list" else ""), node, "post")
        try:
            posts = list(ct.ensures(c))
        except Unsupported as ex:
            posts = None
            eng.oblige(s, z3.BoolVal(False), "%s: result has the prescribed kind (%s)" % (label, ex), node, "post")
        eng.oblige_all(s, posts or [], label.replace("%", "%%") + ": postcondition '%s'", node, "post")
        for exc, cond in raises.items():
            eng.oblige(s, z3.Not(cond), "%s: must raise %s" % (label, exc), node, "raise")
        frame(eng, s, old, args, ct, label, node)
    for rst, exc, node, msg in eng.sinks[0]:
        if not eng.feasible(rst):
            continue
        for lbl, f in ct.on_raise(Ctx(eng, rst, old, args, scope=sc, ct=ct)):
            eng.oblige(rst, f, "%s: on %s (line %d): %s" % (label, exc, getattr(node, "lineno", 0), lbl), node, "raise")
        if exc in ct.may_raise:
            if ct.raises_unchanged:
                frame(eng, rst, old, args, ct, label + " on " + exc, node, everything=True)
            continue
        if exc in raises:
            eng.nret += 1
            eng.oblige(rst, raises[exc], "%s: raises %s only when prescribed (line %d)" % (label, exc, getattr(node, "lineno", 0)), node, "raise")
            if ct.raises_unchanged:
                frame(eng, rst, old, args, ct, label + " on " + exc, node, everything=True)
        else:
            eng.oblige(rst, z3.BoolVal(False), "%s: no %s (%s) at line %d" % (label, exc, msg, getattr(node, "lineno", 0)), node, "exception")
    eng.nret += nret   # the function must be able to return normally or raise at all (guards against vacuous proofs)


def frame(eng, st, old, args, ct, label, node, everything=False):
    mods_cells, mods_fields = set(), set()
    if not everything:
        for m in ct.modifies(Ctx(eng, old, old, args, ct=ct)):
            if isinstance(m, Ref):
                mods_cells.add(m.cid)
            else:
                mods_fields.add((m[0].oid, m[1]))
                v = old.objs[m[0].oid].fields.get(m[1])
                if isinstance(v, Ref):
                    mods_cells.add(v.cid)
    for cid, cell in old.heap.items():
        if cid in mods_cells:
            continue
        now = st.heap[cid]
        if now is cell or now.c is cell.c:
            continue
        f = eng.same_content(st, cell.c, now.c)
        if not z3.is_true(f):
            eng.oblige(st, f, "%s: leaves %s unchanged" % (label, cell_name(old, args, cid)), node, "frame")
    for oid, ob in old.objs.items():
        now = st.objs[oid]
        for n in set(ob.fields) | set(now.fields):
            if (oid, n) in mods_fields:
                continue
            x, y = ob.fields.get(n), now.fields.get(n)
            if x is y:
                continue
            try:
                if x is None or y is None:
                    f = z3.BoolVal(False)
                elif isinstance(x, Ref) and isinstance(y, Ref):
                    f = z3.BoolVal(x.cid == y.cid)
                else:
                    f = eng.eq(st, x, y)
            except Unsupported:
                f = z3.BoolVal(False)
            if not z3.is_true(z3.simplify(f)):
                eng.oblige(st, f, "%s: field %s unchanged" % (label, n), node, "frame")


def cell_name(old, args, cid):
    for n, v in args.items():
        if isinstance(v, Ref) and v.cid == cid:
            return n
        if isinstance(v, ObjRef):
            for f, x in old.objs[v.oid].fields.items():
                if isinstance(x, Ref) and x.cid == cid:
                    return n + "." + f
    return "object %d" % cid


def verify(prog, registry, classspec, qual, receiver=None, variant=None, externals=None, part=(0, 1), stages=None, only=None, verbose=False, loops=None):
    """-> result dict; obligations with index i % part[1] == part[0] are discharged here"""
    t0 = time.time()
    res = {"function": qual, "receiver": receiver, "variant": registry[qual].variant_name(variant) if variant else None,
           "obligations": [], "unsupported": None, "gen_s": 0.0, "part": part}
    reset_fresh()
    try:
        eng = generate(prog, registry, classspec, qual, receiver, variant, externals)
    except BindError as e:
        res["unsupported"] = "contract refers to local variable %s, which the current source does not have" % e
        return res
    except Unsupported as e:
        res["unsupported"] = str(e)
        return res
    except RecursionError:
        res["unsupported"] = "recursion limit"
        return res
    except Exception as e:   # an internal limit of the tool, never a verdict about the code
        res["unsupported"] = "verifier could not read the code: %s: %s" % (type(e).__name__, e)
        res["traceback"] = traceback.format_exc()
        return res
    res["gen_s"] = time.time() - t0
    res["vacuous"] = not eng.vacuity
    res["nret"] = eng.nret
    res["loops"] = {".".join(map(str, k)): v for k, v in sorted(eng.loop_forms.items())}
    res["inlined"] = sorted(eng.inlined)
    res["used_contracts"] = sorted(eng.used_contracts)
    res["externals"] = sorted(eng.used_ext)
    res["modules"] = {m.name: m.sha for m in eng.modules_used.values() if m is not None}
    res["n_obligations"] = len(eng.obls)
    for i, ob in enumerate(eng.obls):
        if i % part[1] != part[0]:
            continue
        if only and only not in ob.name:
            continue
        r = S.discharge(ob, stages)
        r.update({"name": ob.name, "line": ob.line, "kind": ob.kind, "index": i})
        res["obligations"].append(r)
        if r["status"] != "proved" and loops is not None and loops != res["loops"]:
            break       # the annotation does not fit these loops (see check.py)
        if verbose:
            print("  %-7s %6.2fs %-12s L%-4d %s" % (r["status"], r["seconds"], r["solver"], ob.line, ob.name), flush=True)
            if r["status"] == "failed":
                print("         ", r.get("detail"))
    res["wall_s"] = time.time() - t0
    return res
