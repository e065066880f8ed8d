"""Symbolic execution of the real Python source against contracts; emits verification conditions."""
import ast
import z3
from .theory import *
from .values import *
from .program import Program, FuncInfo, ClassInfo


class State:
    def __init__(self):
        self.facts, self.frames, self.heap, self.objs = [], {}, {}, {}
        self.ghost = {}

    def copy(self):
        s = State()
        s.facts = list(self.facts)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.objs = {k: v.copy() for k, v in self.objs.items()}
        s.ghost = dict(self.ghost)
        return s

    def assume(self, f):
        if z3.is_true(f):
            return self
        self.facts.append(f)
        return self


class Scope:
    """where a piece of code runs: frame id, parent scopes (closures), function info"""

    def __init__(self, fid, info, parent=None, self_val=None):
        self.fid, self.info, self.parent, self.self_val = fid, info, parent, self_val


class Out:
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Obligation:
    def __init__(self, name, facts, goal, line, kind):
        self.name, self.facts, self.goal, self.line, self.kind = name, facts, goal, line, kind


class LoopFrame:
    def __init__(self, key, it, seen=None, idx=None, ety=None):
        self.key, self.it, self.seen, self.idx, self.ety, self.elem = key, it, seen, idx, ety, None
        self.entry = None   # state at loop entry


class Ctx:
    """what contracts see"""

    def __init__(self, eng, st, old, args, result=None, frames=(), scope=None, yielded=None, ct=None):
        self.eng, self.st, self.old, self.args, self.result = eng, st, old, args, result
        self.frames, self.scope, self.yielded, self.ct = list(frames), scope, yielded, ct

    def z(self, name, ty=None):
        v = self.args[name]
        return self.eng.to_z3(self.st, v, ty)

    def val(self, v, ty=None, st=None):
        return self.eng.to_z3(st or self.st, v, ty)

    def local(self, name):
        name = self.eng.rename.get(name, name)
        sc = self.scope
        while sc is not None:
            fr = self.st.frames.get(sc.fid, {})
            if name in fr:
                return fr[name]
            sc = sc.parent
        # a helper extracted from the function: look in every live frame
        for fid in reversed(self.eng.fid_stack):
            fr = self.st.frames.get(fid, {})
            if name in fr:
                return fr[name]
        raise BindError(name)

    def lz(self, name, ty=None, st=None):
        return self.eng.to_z3(st or self.st, self.local(name), ty)

    def lset(self, name, ety):
        return self.lz(name, TSet(ety))

    def var(self, base, ty):
        return fresh(base, ty)

    @property
    def loop(self):
        return self.frames[-1]


class Contract:
    """base class; see /verif/contracts"""
    params = {}
    receivers = None
    loops = {}
    yields = None

    def gen_facts(self, c):      # of a generator: facts on its arguments the caller may use (also to be listed in ensures)
        return []
    raises_unchanged = True
    pure = False
    trusted = False      # assumed, never verified (listed in the evidence)
    decreases = {}
    result_ty = None
    at_exit = None       # fn(self, c): instances of lemmas to assume when the function returns
    variants = (None,)

    def variant_name(self, v):
        return ",".join("%s=%s" % (k, getattr(x, "__name__", x)) for k, x in v.items()) if v else ""

    def __init__(self, qual):
        self.qual = qual

    def callable_with(self, eng, st, bound):
        """whether calls with these arguments use the contract (otherwise the body is inlined)"""
        return True

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def raises(self, c):
        return {}

    def modifies(self, c):
        return []

    may_raise = ()       # exceptions whose exact condition is not prescribed

    def on_raise(self, c):
        """what holds when an exception leaves the function"""
        return []

    def result(self, eng, st, c):
        if self.result_ty is None:
            return NONE
        return eng.havoc_value(st, self.result_ty, "res_" + self.qual.split(".")[-1])


def conj(fs):
    fs = [f for f in fs if not z3.is_true(f)]
    if not fs:
        return z3.BoolVal(True)
    return z3.And(*fs) if len(fs) > 1 else fs[0]


class Engine:
    def __init__(self, program, registry, classes, externals=None, prune_ms=150):
        self.prog, self.registry, self.classspec = program, registry, classes
        self.ext = dict(BUILTINS)
        if externals:
            self.ext.update(externals)
        self.obls = []
        self.dry = 0
        self.sinks = [[]]
        self.nid = 0
        self.target = None
        self.loop_stack = []
        self.fid_stack = []
        self.rename = {}
        self.inlined = set()
        self.used_contracts = set()
        self.used_ext = set()
        self.call_depth = 0
        self.prune_ms = prune_ms
        self.prune_calls = 0
        self.loop_ord = {}
        self.loop_forms = {}
        self.in_pure = 0      # > 0: inside a comprehension, where results must be closed terms
        self.enum_classes = {}
        self.yield_handlers = []
        self.modules_used = {}

    # ------------------------------------------------------------------ utilities
    def new_id(self):
        self.nid += 1
        return self.nid

    def alloc(self, st, content):
        cid = self.new_id()
        st.heap[cid] = Cell(content)
        return Ref(cid)

    def new_obj(self, st, cls, fields=None):
        oid = self.new_id()
        st.objs[oid] = Obj(cls, fields)
        return ObjRef(oid)

    def oblige(self, st, goal, name, node=None, kind="assert"):
        if self.dry:
            return
        if z3.is_true(goal):
            goal = z3.BoolVal(True)
        self.obls.append(Obligation(name, list(st.facts), goal, getattr(node, "lineno", 0), kind))

    def oblige_all(self, st, items, fmt, node, kind, core=None):
        """a list of (label, goal); goals labelled 'lemma: ..' are available to the ones after them.
        core: (number of leading facts, first of the trailing facts) that, with the lemmas, are tried first on the goals after the lemmas"""
        st = st.copy()
        had = False
        for lbl, f in items:
            self.oblige(st, f, fmt % lbl, node, kind)
            if lbl.startswith("lemma: "):
                st.assume(f)
                had = True
            elif core and had and not self.dry:
                self.obls[-1].core = core

    def feasible(self, st, extra=None):
        if self.dry:
            return True
        if extra is not None:
            e = z3.simplify(extra)
            if z3.is_false(e):
                return False
            if z3.is_true(e):
                return True
        self.prune_calls += 1
        s = z3.Solver()
        s.set("timeout", self.prune_ms)
        s.set("auto_config", False)
        s.set("mbqi", False)
        fs = st.facts + ([extra] if extra is not None else [])
        s.add(*[f for _, f in background(fs)])
        s.add(*fs)
        return s.check() != z3.unsat

    def raise_path(self, st, cond, exc, node=None, msg=""):
        """the path on which `exc` is raised (under cond), then continue under not cond"""
        if z3.is_false(cond):
            return
        st2 = st.copy().assume(cond)
        c = z3.simplify(cond)
        if z3.is_false(c):
            return
        self.sinks[-1].append((st2, exc, node, msg))

    # ------------------------------------------------------------------ values <-> z3
    def havoc_value(self, st, ty, base="h"):
        if isinstance(ty, Ty):
            register(ty)
            if ty.mutable:
                return self.alloc(st, V(ty, fresh(base, ty)))
            if ty.kind == "Tup":
                return V(ty, fresh(base, ty))
            return V(ty, fresh(base, ty))
        if callable(ty):
            return ty(self, st, base)
        return ty

    def type_of(self, st, v):
        if isinstance(v, V):
            return v.ty
        if isinstance(v, Ref):
            c = self.content(st, v) if v.path else st.heap[v.cid].c
            if isinstance(c, V):
                return c.ty
            if isinstance(c, PL) and c.items:
                t = self.type_of(st, c.items[0])
                return TList(t) if t else None
            return None
        if isinstance(v, PTup):
            ts = [self.type_of(st, x) for x in v.items]
            return None if any(t is None for t in ts) else TTup(*ts)
        if isinstance(v, PStr):
            return TStr
        return None

    def to_z3(self, st, v, ty=None):
        """z3 expression of value v, at type ty if given"""
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, V):
            if ty is None or v.ty == ty:
                return v.e
            if {v.ty.kind, ty.kind} == {"Set", "Coll"}:
                return v.e
            if v.ty.kind == "Bool" and ty.kind == "Int":
                return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
            if v.ty.kind == "Int" and ty.kind == "Real":
                return z3.ToReal(v.e)
            if v.ty.kind == "Bool" and ty.kind == "Real":
                return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
            if v.ty.kind == "Int" and ty.kind == "Bool":
                return v.e != 0
            if v.ty.kind == "List" and ty.kind in ("Set", "Coll"):
                return L_elems(v.e, v.ty)
            raise Unsupported("type %s used as %s" % (v.ty, ty))
        if isinstance(v, Ref):
            c = self.content(st, v)
            return self.content_z3(st, c, ty)
        if isinstance(v, PTup):
            if ty is None:
                ty = self.type_of(st, v)
            if ty is None:
                raise Unsupported("tuple of unknown type")
            if ty.kind in ("Coll", "Set"):
                e = empty_set(ty.args[0])
                for x in v.items:
                    e = sadd(e, self.to_z3(st, x, ty.args[0]))
                return e
            if ty.kind != "Tup" or len(ty.args) != len(v.items):
                raise Unsupported("tuple used as %s" % ty)
            return T_mk([self.to_z3(st, x, t) for x, t in zip(v.items, ty.args)], register(ty))
        if isinstance(v, PStr) and ty is not None and ty.kind == "Str":
            return self.str_z3(st, v)
        if isinstance(v, PStr) and ty is None:
            return self.str_z3(st, v)
        if isinstance(v, PStr) and ty.kind == "Node":
            return z3.Const("strnode_" + str(v.const), sort(TNode))
        if isinstance(v, OptV):
            return self.to_z3(st, v.val, ty)
        raise Unsupported("value %r as %s" % (type(v).__name__, ty))

    def content_z3(self, st, c, ty=None):
        if isinstance(c, V):
            return self.to_z3(st, c, ty)
        if isinstance(c, PEmpty):
            if ty is None:
                raise Unsupported("empty container of unknown type")
            register(ty)
            return empty(ty)
        if isinstance(c, PL):
            if ty is None:
                if not c.items:
                    raise Unsupported("empty list of unknown type")
                ety = self.type_of(st, c.items[0])
                if ety is None:
                    raise Unsupported("list of unknown type")
                ty = TList(ety)
            register(ty)
            if ty.kind in ("Set", "Coll"):
                e = empty_set(ty.args[0])
                for x in c.items:
                    e = sadd(e, self.to_z3(st, x, ty.args[0]))
                return e
            e = empty(ty)
            for x in c.items:
                e = self.list_append(st, e, self.to_z3(st, x, ty.args[0]), ty)
            return e
        raise Unsupported("content %r" % c)

    def str_z3(self, st, v):
        args, names = [], []
        for p in v.parts:
            if isinstance(p, str):
                names.append(p)
            else:
                e = self.to_z3(st, p)
                names.append("{%s}" % e.sort())
                args.append(e)
        nm = "str:" + "|".join(names)
        if not args:
            return z3.Const(nm, sort(TStr))
        return fun(nm, *[a.sort() for a in args], sort(TStr))(*args)

    def wrap(self, ty, e):
        """z3 expr -> Value (tuples become Python-level)"""
        if ty.kind == "Tup":
            return PTup([self.wrap(t, z3.simplify(T_get(e, i, ty))) for i, t in enumerate(ty.args)], names=ty.names)
        return V(ty, e)

    # ------------------------------------------------------------------ heap
    def content(self, st, ref):
        cell = st.heap[ref.cid]
        if cell.escaped:
            raise Unsupported("use of a container after it was stored elsewhere")
        c = cell.c
        if ref.path:
            if ref.epoch != cell.epoch:
                raise Unsupported("stale reference into a container")
            for k in ref.path:
                if not isinstance(c, V):
                    raise Unsupported("path into untyped container")
                if c.ty.kind == "Dict":
                    c = V(c.ty.args[1], z3.Select(D_val(c.e, c.ty), k))
                elif c.ty.kind == "List":
                    c = V(c.ty.args[0], z3.Select(L_arr(c.e, c.ty), k))
                else:
                    raise Unsupported("path")
        return c

    def set_content(self, st, ref, c, structural=False):
        cell = st.heap[ref.cid]
        if cell.escaped:
            raise Unsupported("mutation of a container after it was stored elsewhere")
        if not ref.path:
            st.heap[ref.cid] = Cell(c, cell.epoch + (1 if structural else 0), False)
            return
        if ref.epoch != cell.epoch:
            raise Unsupported("stale reference into a container")

        def upd(outer, path):
            if not path:
                return self.to_z3(st, c, outer.ty) if isinstance(c, V) else self.content_z3(st, c, outer.ty)
            k = path[0]
            if outer.ty.kind == "Dict":
                inner = V(outer.ty.args[1], z3.Select(D_val(outer.e, outer.ty), k))
                return D_mk(D_dom(outer.e, outer.ty), z3.Store(D_val(outer.e, outer.ty), k, upd(inner, path[1:])), outer.ty)
            if outer.ty.kind == "List" and len(path) == 1 and outer.ty.args[0].mutable:
                inner = V(outer.ty.args[0], z3.Select(L_arr(outer.e, outer.ty), k))
                return L_mk(L_len(outer.e, outer.ty), z3.Store(L_arr(outer.e, outer.ty), k, upd(inner, path[1:])), outer.ty)
            raise Unsupported("update path")
        st.heap[ref.cid] = Cell(V(cell.c.ty, upd(cell.c, ref.path)), cell.epoch, False)

    def escape(self, st, v):
        """v's container is being stored inside another container (by value)"""
        if isinstance(v, Ref):
            if v.path:
                raise Unsupported("storing an inner container elsewhere")
            cell = st.heap[v.cid]
            st.heap[v.cid] = Cell(cell.c, cell.epoch, True)
        elif isinstance(v, PTup):
            for x in v.items:
                self.escape(st, x)

    def elem_ref(self, st, ref, k, ety, e):
        """value of an element: reference if the element type is mutable"""
        if ety.mutable:
            return Ref(ref.cid, ref.path + (k,), st.heap[ref.cid].epoch)
        return self.wrap(ety, e)

    # ------------------------------------------------------------------ list theory steps
    def list_append(self, st, l, x, ty):
        n = L_len(l, ty)
        l2 = L_mk(n + 1, z3.Store(L_arr(l, ty), n, x), ty)
        y = z3.Const(fresh_name("y"), sort(ty.args[0]))
        st.assume(n >= 0)
        st.assume(L_elems(l2, ty) == sadd(L_elems(l, ty), x))
        st.assume(L_dist(l2, ty) == z3.And(L_dist(l, ty), z3.Not(L_elems(l, ty)[x])))
        st.assume(z3.ForAll([y], z3.Implies(L_elems(l, ty)[y], L_idx(l2, y, ty) == L_idx(l, y, ty)), patterns=[L_idx(l2, y, ty)]))
        st.assume(z3.Implies(z3.Not(L_elems(l, ty)[x]), L_idx(l2, x, ty) == n))
        return l2

    def list_pop_front(self, st, l, ty):
        """-> (head, rest); caller has shown len>0"""
        l2 = fresh("rest", ty)
        i = z3.Int(fresh_name("i"))
        y = z3.Const(fresh_name("y"), sort(ty.args[0]))
        h = L_arr(l, ty)[0]
        st.assume(L_len(l2, ty) == L_len(l, ty) - 1)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(l2, ty)), L_arr(l2, ty)[i] == L_arr(l, ty)[i + 1]), patterns=[L_arr(l2, ty)[i]]))
        st.assume(sadd(L_elems(l2, ty), h) == L_elems(l, ty))
        st.assume(L_elems(l, ty)[h])
        st.assume(z3.Implies(L_dist(l, ty), z3.And(L_dist(l2, ty), z3.Not(L_elems(l2, ty)[h]))))
        return h, l2

    def list_pop_back(self, st, l, ty):
        l2 = L_mk(L_len(l, ty) - 1, L_arr(l, ty), ty)
        h = L_arr(l, ty)[L_len(l, ty) - 1]
        st.assume(sadd(L_elems(l2, ty), h) == L_elems(l, ty))
        st.assume(L_elems(l, ty)[h])
        st.assume(z3.Implies(L_dist(l, ty), z3.And(L_dist(l2, ty), z3.Not(L_elems(l2, ty)[h]))))
        return h, l2

    def list_remove(self, st, l, x, ty):
        """remove first occurrence; caller has shown membership"""
        l2 = fresh("removed", ty)
        p = L_idx(l, x, ty)
        i = z3.Int(fresh_name("i"))
        y = z3.Const(fresh_name("y"), sort(ty.args[0]))
        a, a2 = L_arr(l, ty), L_arr(l2, ty)
        st.assume(L_len(l2, ty) == L_len(l, ty) - 1)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(l2, ty)), a2[i] == z3.If(i < p, a[i], a[i + 1])), patterns=[a2[i]]))
        st.assume(z3.Implies(L_dist(l, ty), z3.And(L_dist(l2, ty), L_elems(l2, ty) == sdel(L_elems(l, ty), x))))
        st.assume(z3.ForAll([y], z3.Implies(z3.And(L_dist(l, ty), L_elems(l2, ty)[y]),
                  L_idx(l2, y, ty) == z3.If(L_idx(l, y, ty) < p, L_idx(l, y, ty), L_idx(l, y, ty) - 1)), patterns=[L_idx(l2, y, ty)]))
        st.assume(sadd(L_elems(l2, ty), x) == L_elems(l, ty))
        return l2

    def list_concat(self, st, l, m, ty):
        r = fresh("cat", ty)
        i = z3.Int(fresh_name("i"))
        n = L_len(l, ty)
        st.assume(L_len(r, ty) == n + L_len(m, ty))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(r, ty)),
                  L_arr(r, ty)[i] == z3.If(i < n, L_arr(l, ty)[i], L_arr(m, ty)[i - n])), patterns=[L_arr(r, ty)[i]]))
        st.assume(L_elems(r, ty) == sunion(L_elems(l, ty), L_elems(m, ty)))
        return r

    def list_of_set(self, st, s, ety, base="lst"):
        ty = register(TList(ety))
        l = fresh(base, ty)
        st.assume(L_elems(l, ty) == s)
        st.assume(L_dist(l, ty))
        st.assume(L_len(l, ty) >= 0)
        return l, ty

    # ------------------------------------------------------------------ truth, equality
    def truth(self, st, v):
        if isinstance(v, V):
            k = v.ty.kind
            if k == "Bool":
                return v.e
            if k == "Int":
                return v.e != 0
            if k == "Real":
                return v.e != 0
            if k in ("Set", "Coll"):
                return v.e != empty_set(v.ty.args[0])
            if k == "List":
                return L_len(v.e, v.ty) != 0
            if k == "Dict":
                return D_dom(v.e, v.ty) != empty_set(v.ty.args[0])
            if k.startswith("Opq_"):
                return fun("truthy_" + mangle(v.ty.key), v.e.sort(), z3.BoolSort())(v.e)
            raise Unsupported("truth value of %s" % v.ty)
        if v is NONE:
            return z3.BoolVal(False)
        if isinstance(v, PTup):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, PStr):
            if v.const is not None:
                return z3.BoolVal(len(v.const) > 0)
            return z3.BoolVal(True)
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, V):
                return self.truth(st, c)
            if isinstance(c, PL):
                return z3.BoolVal(len(c.items) > 0)
            if isinstance(c, PEmpty):
                return z3.BoolVal(False)
            if isinstance(c, PDict):
                return z3.BoolVal(len(c.items) > 0)
            if isinstance(c, POnce):
                return z3.BoolVal(True)
            if isinstance(c, PMap):
                return z3.BoolVal(len(c.entries) > 0)
        if isinstance(v, OptV):
            return z3.And(z3.Not(v.isnone), self.truth(st, v.val))
        if isinstance(v, (ObjRef, FuncV, ClassV, SpecF)):
            return z3.BoolVal(True)
        raise Unsupported("truth of %r" % v)

    def eq(self, st, a, b):
        if isinstance(a, OptV) or isinstance(b, OptV):
            if b is NONE:
                return a.isnone
            if a is NONE:
                return b.isnone
            if isinstance(a, OptV) and isinstance(b, OptV):
                return z3.And(a.isnone == b.isnone, z3.Implies(z3.Not(a.isnone), self.eq(st, a.val, b.val)))
            if isinstance(a, OptV):
                return z3.And(z3.Not(a.isnone), self.eq(st, a.val, b))
            return z3.And(z3.Not(b.isnone), self.eq(st, a, b.val))
        if a is NONE or b is NONE:
            return z3.BoolVal(a is b)
        if isinstance(a, PTup) and isinstance(b, V) and b.ty.kind == "Tup":
            b = self.wrap(b.ty, b.e)
        if isinstance(b, PTup) and isinstance(a, V) and a.ty.kind == "Tup":
            a = self.wrap(a.ty, a.e)
        if isinstance(a, PTup) and isinstance(b, PTup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return conj([self.eq(st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, PStr) and isinstance(b, PStr):
            if a.const is not None and b.const is not None:
                return z3.BoolVal(a.const == b.const)
            return self.str_eq(st, a, b)
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return z3.BoolVal(a.info.qual == b.info.qual)
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, (ClassV, ExtV)) and isinstance(b, (ClassV, ExtV)):
            return z3.BoolVal(False)
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        if ta is None and tb is None:
            raise Unsupported("comparison of untyped containers")
        if ta is None or tb is None:
            t = ta or tb
            return self.z_eq(st, self.to_z3(st, a, t), self.to_z3(st, b, t), t)
        if ta == tb:
            return self.z_eq(st, self.to_z3(st, a), self.to_z3(st, b), ta)
        ks = {ta.kind, tb.kind}
        if ks == {"Int", "Bool"}:
            return self.to_z3(st, a, TInt) == self.to_z3(st, b, TInt)
        if ks <= {"Int", "Bool", "Real"}:
            return self.to_z3(st, a, TReal) == self.to_z3(st, b, TReal)
        if ks == {"Str", "Node"}:
            return self.to_z3(st, a, TNode) == self.to_z3(st, b, TNode)
        raise Unsupported("comparison of %s and %s" % (ta, tb))

    def str_eq(self, st, a, b):
        """equality of two structured strings; decided field by field when the fields can be read back"""
        r = self.str_match(st, self.str_tokens(st, a), self.str_tokens(st, b))
        return r if r is not None else self.str_z3(st, a) == self.str_z3(st, b)

    def str_tokens(self, st, v):
        out = []
        for p in v.parts:
            if isinstance(p, PStr):
                out += self.str_tokens(st, p)
            elif isinstance(p, str):
                out += list(p)
            else:
                out.append(p)
        return out

    def str_match(self, st, a, b):
        """formula, or None if the strings cannot be compared this way.  A decimal integer is followed by a character that
        is no digit, so it ends at the same place in both; one arbitrary field may remain before an equal rest of literal characters"""
        conds = []
        i = 0
        num = lambda x: isinstance(x, V) and x.ty.kind == "Int"
        digit = lambda x: isinstance(x, str) and (x.isdigit() or x in "-")
        while True:
            if i == len(a) or i == len(b):
                if len(a) == len(b):
                    return conj(conds)
                rest = (a if len(a) > i else b)[i]
                return z3.BoolVal(False) if isinstance(rest, str) or num(rest) else None
            x, y = a[i], b[i]
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return z3.BoolVal(False)
            elif num(x) and num(y):
                for t in (a, b):
                    if i + 1 < len(t) and (not isinstance(t[i + 1], str) or digit(t[i + 1])):
                        return None
                conds.append(x.e == y.e)
            elif num(x) and isinstance(y, str) and not digit(y) or num(y) and isinstance(x, str) and not digit(x):
                return z3.BoolVal(False)
            elif isinstance(x, V) and isinstance(y, V) and x.ty.kind == "Str" and y.ty.kind == "Str":
                if all(isinstance(t, str) for t in a[i + 1:] + b[i + 1:]) and a[i + 1:] == b[i + 1:]:
                    return conj(conds + [x.e == y.e])
                return None
            else:
                return None
            i += 1

    @staticmethod
    def indexed(l, lty):
        """the index axiom of lists for this list, found from its members"""
        y = z3.Const(fresh_name("y"), sort(lty.args[0]))
        i = L_idx(l, y, lty)
        return z3.ForAll([y], z3.Implies(L_elems(l, lty)[y], z3.And(0 <= i, i < L_len(l, lty), L_arr(l, lty)[i] == y)), patterns=[L_elems(l, lty)[y]])

    def str_join(self, st, sep, l, lty):
        """sep.join(l): the items can be read back when they are decimal integers and sep starts with another character"""
        f = fun("join:" + sep, sort(lty), sort(TStr))
        if sep and not (sep[0].isdigit() or sep[0] == "-"):
            ity = register(TList(TInt))
            g = fun("split:" + sep, sort(TStr), sort(ity))
            s_of, i_of = fun("str:{Int}", z3.IntSort(), sort(TStr)), fun("int_of_str", sort(TStr), z3.IntSort())
            i, x = z3.Int(fresh_name("i")), z3.Int(fresh_name("x"))
            y = z3.Const(fresh_name("y"), sort(TStr))
            st.assume(z3.ForAll([x], i_of(s_of(x)) == x, patterns=[s_of(x)]))
            ints = z3.ForAll([y], z3.Implies(L_elems(l, lty)[y], s_of(i_of(y)) == y), patterns=[L_elems(l, lty)[y]])
            back = g(f(l))
            st.assume(z3.Implies(ints, z3.And(L_len(back, ity) == L_len(l, lty),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(l, lty)), s_of(L_arr(back, ity)[i]) == L_arr(l, lty)[i]), patterns=[L_arr(back, ity)[i], L_arr(l, lty)[i]]),
                      z3.ForAll([x], L_elems(back, ity)[x] == L_elems(l, lty)[s_of(x)], patterns=[L_elems(back, ity)[x], L_elems(l, lty)[s_of(x)]]))))
        return V(TStr, f(l))

    def hashable(self, st, k, node):
        if isinstance(k, Ref):
            raise Unsupported("unhashable key", node)
        if isinstance(k, PTup):
            for x in k.items:
                self.hashable(st, x, node)

    def pmap_find(self, st, c, k, node):
        """(formulas that hold when entry i is the one found), formula: found"""
        self.hashable(st, k, node)
        if c.unknown:
            raise Unsupported("entries of a dictionary that a call may have changed", node)
        keys = st.ghost.setdefault("pmap_keys", ())
        if not any(same_val(k, x) for x in keys):
            st.ghost["pmap_keys"] = keys + (k,)
            if keys and c.entries:
                raise Unsupported("more than one dictionary key in one query", node)
        conds, none = [], z3.BoolVal(True)
        for key, _ in c.entries:
            e = self.key_eq(st, k, key)
            conds.append(z3.And(none, e))
            none = z3.And(none, z3.Not(e))
        return conds, z3.simplify(z3.Not(none))

    def key_eq(self, st, a, b):
        if isinstance(a, PTup) and isinstance(b, PTup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return conj([self.key_eq(st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, PTup) != isinstance(b, PTup) and (a is NONE or b is NONE or isinstance(a, PStr) or isinstance(b, PStr)):
            return z3.BoolVal(False)
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        if ta is not None and tb is not None and ta != tb and "Node" not in (ta.kind, tb.kind) and not {ta.kind, tb.kind} <= {"Int", "Bool", "Real"} and not {ta.kind, tb.kind} <= {"Set", "Coll", "List"}:
            return z3.BoolVal(False)
        e = self.eq(st, a, b)
        if ta is not None and ta == tb and ta.kind == "List":
            # lists with equal items in equal places have the same members
            l, m = self.to_z3(st, a), self.to_z3(st, b)
            if not l.eq(m):
                st.assume(z3.Implies(e, L_elems(l, ta) == L_elems(m, ta)))
        return e

    def pmap_get(self, st, c, k, node, default=None):
        """value under key k (assumed present); one entry, or values of one type"""
        conds, has = self.pmap_find(st, c, k, node)
        if not c.entries:
            return NONE
        val = c.entries[-1][1]
        for cd, (_, v) in reversed(list(zip(conds, c.entries))[:-1]):
            val = self.merge_val(st, cd, v, val, node)
        return val

    def merge_val(self, st, cd, a, b, node):
        if same_val(a, b):
            return a
        if isinstance(a, V) and isinstance(b, V) and a.ty == b.ty:
            return V(a.ty, z3.If(cd, a.e, b.e))
        if isinstance(a, PTup) and isinstance(b, PTup) and len(a.items) == len(b.items):
            return PTup([self.merge_val(st, cd, x, y, node) for x, y in zip(a.items, b.items)], a.names, a.cls)
        raise Unsupported("entries of different kinds", node)

    def z_eq(self, st, a, b, t):
        if t.kind == "List":
            i = z3.Int(fresh_name("i"))
            return z3.And(L_len(a, t) == L_len(b, t),
                          z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(a, t)), L_arr(a, t)[i] == L_arr(b, t)[i])))
        if t.kind == "Dict":
            return self.dict_eq(a, b, t)
        return a == b

    def dict_eq(self, a, b, t):
        k = z3.Const(fresh_name("k"), sort(t.args[0]))
        va, vb = D_val(a, t)[k], D_val(b, t)[k]
        vt = t.args[1]
        if vt.kind == "Dict":
            same = self.dict_eq(va, vb, vt)
        elif vt.kind == "List":
            same = self.z_eq(None, va, vb, vt)
        else:
            same = va == vb
        return z3.ForAll([k], z3.And(D_dom(a, t)[k] == D_dom(b, t)[k], z3.Implies(D_dom(a, t)[k], same)))

    def same_content(self, st, c1, c2):
        """formula: two cell contents are equal as Python values"""
        if c1 is c2:
            return z3.BoolVal(True)
        if isinstance(c1, V) and isinstance(c2, V):
            if c1.e.eq(c2.e):
                return z3.BoolVal(True)
            return self.z_eq(st, c1.e, c2.e, c1.ty)
        if isinstance(c1, PMap) or isinstance(c2, PMap):
            return z3.BoolVal(isinstance(c1, PMap) and isinstance(c2, PMap) and len(c1.entries) == len(c2.entries) and all(same_val(x, y) and same_val(v, w) for (x, v), (y, w) in zip(c1.entries, c2.entries)))
        ty = c1.ty if isinstance(c1, V) else c2.ty if isinstance(c2, V) else None
        if ty is None:
            if isinstance(c1, PL) and isinstance(c2, PL) and len(c1.items) == len(c2.items):
                return conj([self.eq(st, x, y) for x, y in zip(c1.items, c2.items)])
            return z3.BoolVal(type(c1) == type(c2))
        return self.z_eq(st, self.content_z3(st, c1, ty), self.content_z3(st, c2, ty), ty)

    # ------------------------------------------------------------------ variables
    def lookup(self, st, sc, name):
        s = sc
        while s is not None:
            fr = st.frames.get(s.fid)
            if fr is not None and name in fr:
                v = fr[name]
                if v is UNDEF:
                    raise Unsupported("variable %s may be undefined" % name)
                return v
            s = s.parent
        mod = sc.info.module
        r = self.prog.resolve(mod, name)
        return self.resolved(st, sc, r, name)

    def resolved(self, st, sc, r, name):
        if r is None:
            if name in BUILTIN_NAMES:
                return ExtV("builtins." + name)
            raise Unsupported("unknown name %s" % name)
        if r[0] == "func":
            return FuncV(r[1])
        if r[0] == "class":
            return ClassV(r[1])
        if r[0] == "ext":
            return ExtV(r[1])
        if r[0] == "mod":
            return ModV(r[1], False)
        if r[0] == "const":
            vals = list(self.ev(r[2], st, Scope(self.new_id(), FuncInfo("const", ast.parse("def f(): pass").body[0], r[1]))))
            if len(vals) != 1:
                raise Unsupported("module constant %s" % name)
            return vals[0][1]
        raise Unsupported("name %s" % name)

    def assign(self, st, sc, target, val):
        """yields states"""
        if isinstance(target, ast.Name):
            nm = target.id
            s = sc
            nl = self.nonlocals(sc.info)
            if nm in nl:
                s = sc.parent
                while s is not None and nm not in st.frames.get(s.fid, {}):
                    s = s.parent
                if s is None:
                    raise Unsupported("nonlocal %s" % nm)
            st.frames[s.fid][nm] = val
            yield st
        elif isinstance(target, (ast.Tuple, ast.List)):
            items = self.unpack(st, val, len(target.elts), target)
            states = [st]
            for t, v in zip(target.elts, items):
                states = [s2 for s in states for s2 in self.assign(s, sc, t, v)]
            yield from states
        elif isinstance(target, ast.Attribute):
            for s1, base in self.ev(target.value, st, sc):
                if isinstance(base, ObjRef):
                    s1.objs[base.oid].fields[self.mangle_attr(sc, target.attr)] = self.coerce_field(s1, s1.objs[base.oid].cls, self.mangle_attr(sc, target.attr), val)
                    yield s1
                else:
                    raise Unsupported("attribute assignment", target)
        elif isinstance(target, ast.Subscript):
            for s1, base in self.ev(target.value, st, sc):
                for s2, k in self.ev_index(target.slice, s1, sc):
                    yield from self.store_item(s2, base, k, val, target)
        else:
            raise Unsupported("assignment target", target)

    def mangle_attr(self, sc, attr):
        if attr.startswith("__") and not attr.endswith("__") and sc.info.cls is not None:
            return "_" + sc.info.cls.name.lstrip("_") + attr
        return attr

    def nonlocals(self, info):
        out = set()
        for n in ast.walk(info.node):
            if isinstance(n, ast.Nonlocal):
                out |= set(n.names)
        return out

    def unpack(self, st, val, n, node):
        if isinstance(val, OptV):
            val = self.unwrap_opt(st, val, node)
        if isinstance(val, V) and val.ty.kind == "Tup":
            val = self.wrap(val.ty, val.e)
        if isinstance(val, PTup):
            if len(val.items) != n:
                raise Unsupported("unpacking %d values into %d" % (len(val.items), n), node)
            return val.items
        if isinstance(val, It) and val.kind == "items" and len(val.items) == n:
            return val.items
        if isinstance(val, Ref):
            c = self.content(st, val)
            if isinstance(c, PL) and len(c.items) == n:
                return c.items
        raise Unsupported("unpacking", node)

    def unwrap_opt(self, st, val, node):
        self.raise_path(st, val.isnone, "TypeError", node, "None used as a value")
        st.assume(z3.Not(val.isnone))
        return val.val

    def coerce_field(self, st, cls, name, val):
        spec = self.classspec.get(cls, {})
        ty = spec.get(name)
        if isinstance(ty, Ty) and isinstance(val, Ref) and not val.path:
            c = self.content(st, val)
            if not isinstance(c, V):
                st.heap[val.cid] = Cell(V(register(ty), self.content_z3(st, c, ty)), st.heap[val.cid].epoch)
        elif isinstance(ty, Ty) and not ty.mutable and isinstance(val, (V, PTup)):
            return self.wrap(ty, self.to_z3(st, val, ty))
        return val

    def store_item(self, st, base, k, val, node):
        if isinstance(base, Ref):
            c = self.content(st, base)
            if isinstance(c, PMap):
                self.hashable(st, k, node)
                self.escape(st, val)
                self.set_content(st, base, PMap([(k, val)] + c.entries))
                yield st
                return
            if isinstance(c, PEmpty) and c.kind == "Dict":
                kt, vt = self.type_of(st, k), self.type_of(st, val)
                if kt is None:
                    raise Unsupported("dict of unknown type", node)
                if vt is None:
                    vt = self.guess_empty(st, val, node)
                ty = register(TDict(kt, vt))
                c = V(ty, empty(ty))
                self.set_content(st, base, c)
            if isinstance(c, PDict) and isinstance(k, PStr) and k.const is not None:
                d = PDict(c.items)
                d.items[k.const] = val
                self.set_content(st, base, d)
                yield st
                return
            if isinstance(c, V) and c.ty.kind == "Dict":
                kz = self.to_z3(st, k, c.ty.args[0])
                vz = self.to_z3(st, val, c.ty.args[1])
                self.escape(st, val)
                self.set_content(st, base, V(c.ty, D_mk(sadd(D_dom(c.e, c.ty), kz), z3.Store(D_val(c.e, c.ty), kz, vz), c.ty)),
                                 structural=c.ty.args[1].mutable)
                yield st
                return
            if isinstance(c, V) and c.ty.kind == "List":
                kz = self.to_z3(st, k, TInt)
                n = L_len(c.e, c.ty)
                self.raise_path(st, z3.Or(kz < -n, kz >= n), "IndexError", node)
                st.assume(z3.And(kz >= -n, kz < n))
                kz = z3.If(kz < 0, kz + n, kz) if not z3.is_int_value(kz) or kz.as_long() < 0 else kz
                vz = self.to_z3(st, val, c.ty.args[0])
                self.escape(st, val)
                self.set_content(st, base, V(c.ty, L_mk(n, z3.Store(L_arr(c.e, c.ty), kz, vz), c.ty)), structural=c.ty.args[0].mutable)
                yield st
                return
            if isinstance(c, PL):
                if isinstance(k, V) and z3.is_int_value(z3.simplify(k.e)):
                    i = z3.simplify(k.e).as_long()
                    items = list(c.items)
                    items[i] = val
                    self.set_content(st, base, PL(items, c.kind))
                    yield st
                    return
        h = self.ext.get("setitem")
        if h:
            done = False
            for r in h(self, st, base, k, val, node):
                done = True
                yield r
            if done:
                return
        raise Unsupported("item assignment", node)

    def guess_empty(self, st, val, node):
        raise Unsupported("dict value of unknown type", node)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, sc):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__, e)
        yield from m(e, st, sc)

    def ev1(self, e, st, sc):
        r = list(self.ev(e, st, sc))
        if len(r) != 1:
            raise Unsupported("branching expression", e)
        return r[0]

    def ev_many(self, es, st, sc):
        """yields (st, [values])"""
        if not es:
            yield st, []
            return
        for s1, v in self.ev(es[0], st, sc):
            for s2, vs in self.ev_many(es[1:], s1, sc):
                yield s2, [v] + vs

    def ev_Constant(self, e, st, sc):
        v = e.value
        if v is None:
            yield st, NONE
        elif isinstance(v, bool):
            yield st, V(TBool, z3.BoolVal(v))
        elif isinstance(v, int):
            yield st, V(TInt, z3.IntVal(v))
        elif isinstance(v, float):
            yield st, V(TReal, z3.RealVal(repr(v)) if v == v and abs(v) < 1e300 else z3.Real("huge"))
        elif isinstance(v, str):
            yield st, PStr([v])
        else:
            raise Unsupported("constant %r" % v, e)

    def ev_JoinedStr(self, e, st, sc):
        parts, states = [], [(st, [])]
        for p in e.values:
            if isinstance(p, ast.Constant):
                states = [(s, ps + [p.value]) for s, ps in states]
            else:
                nxt = []
                for s, ps in states:
                    try:
                        for s2, v in self.ev(p.value, s, sc):
                            nxt.append((s2, ps + [v]))
                    except Unsupported:
                        nxt.append((s, ps + [V(TStr, fresh("fmt", TStr))]))
                states = nxt
        for s, ps in states:
            yield s, PStr(ps)

    def ev_Name(self, e, st, sc):
        yield st, self.lookup(st, sc, e.id)

    def ev_Tuple(self, e, st, sc):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred tuple", e)
        for s, vs in self.ev_many(e.elts, st, sc):
            yield s, PTup(vs)

    def ev_List(self, e, st, sc):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred list", e)
        for s, vs in self.ev_many(e.elts, st, sc):
            yield s, self.alloc(s, PL(vs))

    def ev_Set(self, e, st, sc):
        for s, vs in self.ev_many(e.elts, st, sc):
            t = self.type_of(s, vs[0])
            if t is None:
                raise Unsupported("set literal of unknown type", e)
            x = empty_set(t)
            for v in vs:
                x = sadd(x, self.to_z3(s, v, t))
            yield s, self.alloc(s, V(register(TSet(t)), x))

    def ev_Dict(self, e, st, sc):
        if not e.keys:
            yield st, self.alloc(st, PEmpty("Dict"))
            return
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            for s, vs in self.ev_many(e.values, st, sc):
                yield s, self.alloc(s, PDict({k.value: v for k, v in zip(e.keys, vs)}))
            return
        for s, ks in self.ev_many(e.keys, st, sc):
            for s2, vs in self.ev_many(e.values, s, sc):
                kt, vt = self.type_of(s2, ks[0]), self.type_of(s2, vs[0])
                if kt is None or vt is None:
                    raise Unsupported("dict literal of unknown type", e)
                ty = register(TDict(kt, vt))
                x = empty(ty)
                for k, v in zip(ks, vs):
                    kz, vz = self.to_z3(s2, k, kt), self.to_z3(s2, v, vt)
                    x = D_mk(sadd(D_dom(x, ty), kz), z3.Store(D_val(x, ty), kz, vz), ty)
                yield s2, self.alloc(s2, V(ty, x))

    def ev_Lambda(self, e, st, sc):
        info = FuncInfo(sc.info.qual + ".<lambda>", e, sc.info.module, sc.info.cls)
        yield st, FuncV(info, fid=sc)

    def ev_IfExp(self, e, st, sc):
        for s, c in self.ev_cond(e.test, st, sc):
            c = z3.simplify(c)
            if z3.is_true(c):
                yield from self.ev(e.body, s, sc)
                continue
            if z3.is_false(c):
                yield from self.ev(e.orelse, s, sc)
                continue
            a, b = s.copy().assume(c), s.copy().assume(z3.Not(c))
            ra, rb = list(self.ev(e.body, a, sc)), list(self.ev(e.orelse, b, sc))
            if len(ra) == 1 and len(rb) == 1 and isinstance(ra[0][1], V) and isinstance(rb[0][1], V) and ra[0][1].ty == rb[0][1].ty \
                    and self.pure_since(s, ra[0][0]) and self.pure_since(s, rb[0][0]):
                for f in ra[0][0].facts[len(a.facts):]:
                    s.assume(z3.Implies(c, f))
                yield s, V(ra[0][1].ty, z3.If(c, ra[0][1].e, rb[0][1].e))
                continue
            if self.feasible(a):
                yield from ra
            if self.feasible(b):
                yield from rb

    def pure_since(self, a, b):
        """no heap/frame/object change between states a and b"""
        for k, v in a.heap.items():
            if b.heap[k] is not v:
                return False
        for k, f in a.frames.items():
            g = b.frames.get(k, f)
            if any(g.get(n) is not x for n, x in f.items()) or len(g) != len(f):
                return False
        for k, o in a.objs.items():
            p = b.objs[k]
            if any(p.fields.get(n) is not x for n, x in o.fields.items()) or len(p.fields) != len(o.fields):
                return False
        for k, x in a.ghost.items():
            if b.ghost.get(k) is not x:
                return False
        return True

    def ev_cond(self, e, st, sc):
        """yields (st, z3 Bool)"""
        for s, v in self.ev(e, st, sc):
            yield s, self.truth(s, v)

    def ev_BoolOp(self, e, st, sc):
        yield from self.boolop(e.values, isinstance(e.op, ast.And), st, sc, e)

    def boolop(self, vals, is_and, st, sc, node):
        if len(vals) == 1:
            yield from self.ev(vals[0], st, sc)
            return
        for s, v in self.ev(vals[0], st, sc):
            c = self.truth(s, v)
            cs = z3.simplify(c)
            if z3.is_true(cs) if is_and else z3.is_false(cs):
                yield from self.boolop(vals[1:], is_and, s, sc, node)
                continue
            if z3.is_false(cs) if is_and else z3.is_true(cs):
                yield s, v
                continue
            go = c if is_and else z3.Not(c)
            g = s.copy().assume(go)
            n0 = len(g.facts)
            rest = list(self.boolop(vals[1:], is_and, g, sc, node))
            if len(rest) == 1 and self.pure_since(s, rest[0][0]):
                try:
                    c2 = self.truth(rest[0][0], rest[0][1])
                except Unsupported:
                    c2 = None
                if c2 is not None and isinstance(v, V) and v.ty.kind == "Bool":
                    for f in rest[0][0].facts[n0:]:
                        s.assume(z3.Implies(go, f))
                    yield s, V(TBool, z3.And(c, c2) if is_and else z3.Or(c, c2))
                    continue
            # split
            short = s.copy().assume(z3.Not(go))
            if self.feasible(short):
                yield short, v
            for r in rest:
                if self.feasible(r[0]):
                    yield r

    def ev_UnaryOp(self, e, st, sc):
        for s, v in self.ev(e.operand, st, sc):
            if isinstance(e.op, ast.Not):
                yield s, V(TBool, z3.Not(self.truth(s, v)))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, V) and v.ty.kind in ("Int", "Real"):
                    yield s, V(v.ty, -v.e)
                else:
                    r = self.ext_hook("unary", s, [v], e)
                    yield s, r
            else:
                raise Unsupported("unary operator", e)

    def ext_hook(self, name, st, args, node):
        h = self.ext.get(name)
        if h:
            r = h(self, st, args, node)
            if r is not None:
                return r
        raise Unsupported("operator on %r" % (args,), node)

    def ev_BinOp(self, e, st, sc):
        for s, a in self.ev(e.left, st, sc):
            for s2, b in self.ev(e.right, s, sc):
                yield s2, self.binop(s2, e.op, a, b, e)

    def binop(self, st, op, a, b, node):
        a0, b0 = a, b
        if isinstance(a, OptV):
            a = self.unwrap_opt(st, a, node)
        if isinstance(b, OptV):
            b = self.unwrap_opt(st, b, node)
        if isinstance(a, PStr) and isinstance(b, PStr) and isinstance(op, ast.Add):
            return PStr(a.parts + b.parts)
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        num = ("Int", "Real", "Bool")
        if ta and tb and ta.kind in num and tb.kind in num:
            if ta.kind == "Bool" and tb.kind == "Bool" and isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
                x, y = a.e, b.e
                return V(TBool, z3.Or(x, y) if isinstance(op, ast.BitOr) else z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Xor(x, y))
            t = TReal if "Real" in (ta.kind, tb.kind) or isinstance(op, ast.Div) else TInt
            x, y = self.to_z3(st, a, t), self.to_z3(st, b, t)
            if isinstance(op, ast.Add):
                return V(t, x + y)
            if isinstance(op, ast.Sub):
                return V(t, x - y)
            if isinstance(op, ast.Mult):
                return V(t, x * y)
            if isinstance(op, ast.Div):
                self.raise_path(st, y == 0, "ZeroDivisionError", node)
                st.assume(y != 0)
                return V(t, x / y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and t == TInt and z3.is_int_value(y) and y.as_long() > 0:
                return V(t, x / y if isinstance(op, ast.FloorDiv) else x % y)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and self.is_setlike(st, a) and self.is_setlike(st, b):
            t = ta or tb
            if t is None:
                raise Unsupported("set operation on untyped sets", node)
            x, y = self.to_z3(st, a, t), self.to_z3(st, b, t)
            r = sunion(x, y) if isinstance(op, ast.BitOr) else sinter(x, y) if isinstance(op, ast.BitAnd) else \
                sdiff(x, y) if isinstance(op, ast.Sub) else sunion(sdiff(x, y), sdiff(y, x))
            return self.alloc(st, V(t, r))
        if isinstance(op, ast.Add) and ta and tb and ta.kind == "List" and tb.kind == "List":
            return self.alloc(st, V(ta, self.list_concat(st, self.to_z3(st, a), self.to_z3(st, b, ta), ta)))
        if isinstance(op, ast.Add) and isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.content(st, a), self.content(st, b)
            if isinstance(ca, PL) and isinstance(cb, PL):
                return self.alloc(st, PL(ca.items + cb.items))
            t = ta or tb
            if t is not None and t.kind == "List":
                return self.alloc(st, V(t, self.list_concat(st, self.to_z3(st, a, t), self.to_z3(st, b, t), t)))
        if isinstance(op, ast.Add) and isinstance(a, PTup) and isinstance(b, PTup):
            return PTup(a.items + b.items)
        h = self.ext.get("binop")
        if h:
            r = h(self, st, op, a, b, node)
            if r is not None:
                return r
        raise Unsupported("binary operator %s on %s, %s" % (type(op).__name__, ta, tb), node)

    def is_setlike(self, st, v):
        if isinstance(v, Ref):
            c = self.content(st, v)
            return (isinstance(c, V) and c.ty.kind == "Set") or (isinstance(c, PEmpty) and c.kind == "Set")
        return isinstance(v, V) and v.ty.kind in ("Set",)

    def ev_Compare(self, e, st, sc):
        yield from self.compare_chain(e.left, list(e.ops), list(e.comparators), st, sc, e)

    def compare_chain(self, left, ops, comps, st, sc, node):
        for s, a in self.ev(left, st, sc):
            yield from self.compare_vals(a, ops, comps, s, sc, node)

    def compare_vals(self, a, ops, comps, s, sc, node):
        for s2, b in self.ev(comps[0], s, sc):
            for s3, r in self.compare(s2, ops[0], a, b, node):
                if len(ops) == 1:
                    yield s3, r
                else:
                    for s4, r2 in self.compare_vals(b, ops[1:], comps[1:], s3, sc, node):
                        yield s4, V(TBool, z3.And(self.truth(s4, r), self.truth(s4, r2)))

    def compare(self, st, op, a, b, node):
        h = self.ext.get("compare")
        if h:
            r = h(self, st, op, a, b, node)
            if r is not None:
                yield st, r
                return
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(st, a, b)
            yield st, V(TBool, r if isinstance(op, ast.Eq) else z3.Not(r))
            return
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is NONE or b is NONE:
                o = b if a is NONE else a
                r = z3.BoolVal(True) if o is NONE else o.isnone if isinstance(o, OptV) else z3.BoolVal(False)
            elif isinstance(a, V) and isinstance(b, V) and a.ty.kind == "Bool" and b.ty.kind == "Bool":
                r = a.e == b.e
            elif isinstance(a, (ClassV, ExtV)) or isinstance(b, (ClassV, ExtV)):
                r = self.eq(st, a, b)
            else:
                raise Unsupported("identity comparison", node)
            yield st, V(TBool, r if isinstance(op, ast.Is) else z3.Not(r))
            return
        if isinstance(op, (ast.In, ast.NotIn)):
            for s2, r in self.contains(st, a, b, node):
                yield s2, V(TBool, r if isinstance(op, ast.In) else z3.Not(r))
            return
        if isinstance(a, OptV):
            a = self.unwrap_opt(st, a, node)
        if isinstance(b, OptV):
            b = self.unwrap_opt(st, b, node)
        if self.is_setlike(st, a) and self.is_setlike(st, b):
            t = self.type_of(st, a) or self.type_of(st, b)
            x, y = self.to_z3(st, a, t), self.to_z3(st, b, t)
            et = t.args[0]
            sub = ssub(x, y, et)
            r = {ast.LtE: sub, ast.Lt: z3.And(sub, x != y), ast.GtE: ssub(y, x, et), ast.Gt: z3.And(ssub(y, x, et), x != y)}[type(op)]
            yield st, V(TBool, r)
            return
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        num = ("Int", "Real", "Bool")
        if ta and tb and ta.kind in num and tb.kind in num:
            t = TReal if "Real" in (ta.kind, tb.kind) else TInt
            x, y = self.to_z3(st, a, t), self.to_z3(st, b, t)
            r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            yield st, V(TBool, r)
            return
        raise Unsupported("comparison", node)

    def contains(self, st, a, b, node):
        if isinstance(b, V) and b.ty.kind in ("Set", "Coll"):
            yield st, b.e[self.to_z3(st, a, b.ty.args[0])]
            return
        if isinstance(b, V) and b.ty.kind == "List":
            yield st, L_elems(b.e, b.ty)[self.to_z3(st, a, b.ty.args[0])]
            return
        if isinstance(b, PTup):
            yield st, z3.Or(*[self.eq(st, a, x) for x in b.items]) if b.items else z3.BoolVal(False)
            return
        if isinstance(b, Ref):
            c = self.content(st, b)
            if isinstance(c, PL):
                yield st, z3.Or(*[self.eq(st, a, x) for x in c.items]) if c.items else z3.BoolVal(False)
                return
            if isinstance(c, PEmpty):
                yield st, z3.BoolVal(False)
                return
            if isinstance(c, PDict) and isinstance(a, PStr) and a.const is not None:
                yield st, z3.BoolVal(a.const in c.items)
                return
            if isinstance(c, PMap):
                yield st, self.pmap_find(st, c, a, node)[1]
                return
            if isinstance(c, V):
                t = c.ty
                if t.kind == "Dict":
                    yield st, D_dom(c.e, t)[self.to_z3(st, a, t.args[0])]
                    return
                if t.kind == "Set":
                    yield st, c.e[self.to_z3(st, a, t.args[0])]
                    return
                if t.kind == "List":
                    yield st, L_elems(c.e, t)[self.to_z3(st, a, t.args[0])]
                    return
        if isinstance(b, (GenV, It)):
            for s, it in self.as_iter(st, b, node):
                if it.kind == "set":
                    yield s, it.e[self.to_z3(s, a, it.ety)]
                elif it.kind == "list":
                    yield s, L_elems(it.e, it.lty)[self.to_z3(s, a, it.ety)]
                elif it.kind == "items":
                    yield s, z3.Or(*[self.eq(s, a, x) for x in it.items]) if it.items else z3.BoolVal(False)
                else:
                    raise Unsupported("membership in a generator without contract", node)
            return
        if isinstance(b, RangeV):
            x = self.to_z3(st, a, TInt)
            yield st, z3.And(b.lo <= x, x < b.hi)
            return
        h = self.ext.get("contains")
        if h:
            r = h(self, st, a, b, node)
            if r is not None:
                yield st, r
                return
        raise Unsupported("membership in %r" % b, node)

    # ---- attribute / subscript
    def ev_Attribute(self, e, st, sc):
        for s, b in self.ev(e.value, st, sc):
            yield from self.getattr(s, b, e.attr, sc, e)

    def getattr(self, st, b, attr, sc, node):
        if isinstance(b, OptV):
            b = self.unwrap_opt(st, b, node)
        if isinstance(b, ModV):
            m = self.prog.module(b.name)
            r = self.prog.resolve(m, attr)
            if r is None and self.prog.module(b.name + "." + attr) is not None:
                r = ("mod", b.name + "." + attr)
            yield st, self.resolved(st, sc, r, attr)
            return
        if isinstance(b, ExtV):
            nm = b.name + "." + attr
            if nm in CONSTS:
                yield st, CONSTS[nm]()
                return
            yield st, ExtV(nm)
            return
        if isinstance(b, ObjRef):
            o = st.objs[b.oid]
            a2 = self.mangle_attr(sc, attr)
            if a2 in o.fields:
                v = o.fields[a2]
                yield st, v
                return
            cls = self.class_info(o.cls)
            if attr == "__class__":
                yield st, ClassV(cls)
                return
            if cls is not None:
                m = self.prog.method(cls, attr)
                if m is None and a2 != attr:
                    m = self.prog.method(cls, attr)
                if m is None and attr.startswith("_"):
                    # name-mangled private method: _Cls__name
                    for c in self.prog.mro(cls):
                        pre = "_" + c.name.lstrip("_")
                        if attr.startswith(pre + "__") and attr[len(pre):] in c.methods:
                            m = c.methods[attr[len(pre):]]
                if m is not None and attr.startswith("__") and not attr.endswith("__") and sc.info.cls is not None:
                    own = sc.info.cls.methods.get(attr)
                    if own is not None:
                        m = own
                if m is not None:
                    if m.is_property:
                        yield from self.call_func(st, FuncV(m, bound=b), [], {}, node)
                        return
                    yield st, FuncV(m, bound=None if m.is_static else b)
                    return
            for c in self.prog.mro(cls) if cls is not None else []:
                if attr in c.nested:
                    yield st, ClassV(c.nested[attr])
                    return
            spec = self.registry.get((o.cls, attr)) or self.registry.get(o.cls + "." + attr)
            if spec is not None:
                yield st, SpecF(o.cls + "." + attr, self.spec_method(spec, b))
                return
            raise Unsupported("attribute %s of %s" % (attr, o.cls), node)
        if isinstance(b, PTup):
            if b.names and attr in b.names:
                yield st, b.items[b.names.index(attr)]
                return
            yield st, BoundM(b, attr)
            return
        if isinstance(b, V) and b.ty.kind == "Tup" and b.ty.names and attr in b.ty.names:
            i = b.ty.names.index(attr)
            yield st, self.wrap(b.ty.args[i], T_get(b.e, i, b.ty))
            return
        if isinstance(b, V) and b.ty.kind == "Int" and attr == "value":
            yield st, b
            return
        if isinstance(b, ClassV):
            cls = b.info
            if attr == "__name__":
                yield st, PStr([cls.name])
                return
            if self.is_enum(cls) and attr in cls.attrs and not any(x.endswith("IntEnum") for x in self.prog.bases_ext(cls)):
                self.enum_classes["Opq_Enum_" + cls.name] = cls
                yield st, numpy_model.enum_member(self, st, cls, attr)
                return
            if attr in cls.nested:
                yield st, ClassV(cls.nested[attr])
                return
            if self.is_enum(cls) and attr in cls.attrs:
                yield st, self.ev1(cls.attrs[attr], st, sc)[1]
                return
            m = self.prog.method(cls, attr)
            if m is not None:
                yield st, FuncV(m)
                return
            raise Unsupported("class attribute %s" % attr, node)
        if isinstance(b, SuperV):
            m = self.prog.method(self.class_info_of(st, b), attr, after=b.after)
            if m is None:
                yield st, BoundM(b, attr)
                return
            yield st, FuncV(m, bound=b.obj)
            return
        h = self.ext.get("getattr")
        if h:
            r = h(self, st, b, attr, node)
            if r is not None:
                yield st, r
                return
        if isinstance(b, (Ref, V, It, PStr)):
            yield st, BoundM(b, attr)
            return
        raise Unsupported("attribute %s of %r" % (attr, b), node)

    def class_info(self, clsname):
        ci = self.classspec.get(clsname, {}).get("__class__")
        if ci is None:
            return None
        return self.prog.find(ci)

    def class_info_of(self, st, sv):
        return self.class_info(st.objs[sv.obj.oid].cls) if isinstance(sv.obj, ObjRef) else sv.after

    def is_enum(self, cls):
        return any(b in ("IntEnum", "Enum", "enum.IntEnum", "enum.Enum") for b in self.prog.bases_ext(cls))

    def ev_index(self, sl, st, sc):
        if isinstance(sl, ast.Slice):
            lo = list(self.ev(sl.lower, st, sc))[0][1] if sl.lower else None
            hi = list(self.ev(sl.upper, st, sc))[0][1] if sl.upper else None
            if sl.step:
                raise Unsupported("slice step", sl)
            yield st, ("slice", lo, hi)
            return
        if isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts):
            out = []
            for x in sl.elts:
                r = list(self.ev_index(x, st, sc))
                if len(r) != 1:
                    raise Unsupported("index", sl)
                out.append(r[0][1])
            yield st, ("index", out)
            return
        yield from self.ev(sl, st, sc)

    def ev_Subscript(self, e, st, sc):
        for s, b in self.ev(e.value, st, sc):
            for s2, k in self.ev_index(e.slice, s, sc):
                yield s2, self.load_item(s2, b, k, e)

    def load_item(self, st, b, k, node):
        if isinstance(b, OptV):
            b = self.unwrap_opt(st, b, node)
        if isinstance(b, V) and b.ty.kind.startswith("Opq_"):
            r = self.ext["item"](self, st, b, k, node)
            if r is not None:
                return r
        if isinstance(b, V) and b.ty.kind == "Tup":
            b = self.wrap(b.ty, b.e)
        if isinstance(b, PTup):
            if isinstance(k, tuple):
                lo = self.const_int(k[1]) if k[1] is not None else None
                hi = self.const_int(k[2]) if k[2] is not None else None
                return PTup(b.items[slice(lo, hi)])
            i = self.const_int(k)
            if not -len(b.items) <= i < len(b.items):
                self.raise_path(st, z3.BoolVal(True), "IndexError", node)
                st.assume(z3.BoolVal(False))
                return NONE
            return b.items[i]
        if isinstance(b, It) and b.kind == "items":
            return b.items[self.const_int(k)]
        if isinstance(b, It) and b.kind == "list":
            b = V(b.lty, b.e)
        if isinstance(b, V) and b.ty.kind == "List":
            n = L_len(b.e, b.ty)
            kz = self.to_z3(st, k, TInt)
            self.raise_path(st, z3.Or(kz < -n, kz >= n), "IndexError", node)
            st.assume(z3.And(kz >= -n, kz < n))
            kz = kz if z3.is_int_value(kz) and kz.as_long() >= 0 else z3.If(kz < 0, kz + n, kz)
            return self.wrap(b.ty.args[0], L_arr(b.e, b.ty)[kz])
        if isinstance(b, Ref):
            c = self.content(st, b)
            if isinstance(c, PL) and not isinstance(k, tuple):
                kk = z3.simplify(k.e) if isinstance(k, V) else None
                if kk is not None and z3.is_int_value(kk):
                    i = kk.as_long()
                    if not -len(c.items) <= i < len(c.items):
                        self.raise_path(st, z3.BoolVal(True), "IndexError", node)
                        st.assume(z3.BoolVal(False))
                        return NONE
                    return c.items[i]
            if isinstance(c, PL) and isinstance(k, tuple) and k[0] == "slice":
                lo = self.const_int(k[1]) if k[1] is not None else None
                hi = self.const_int(k[2]) if k[2] is not None else None
                return self.alloc(st, PL(c.items[slice(lo, hi)]))
            if isinstance(c, PDict) and isinstance(k, PStr) and k.const in c.items:
                return c.items[k.const]
            if isinstance(c, PMap):
                has = self.pmap_find(st, c, k, node)[1]
                self.raise_path(st, z3.Not(has), "KeyError", node)
                st.assume(has)
                return self.pmap_get(st, c, k, node)
            if isinstance(c, V) and c.ty.kind == "Dict":
                kz = self.to_z3(st, k, c.ty.args[0])
                self.raise_path(st, z3.Not(D_dom(c.e, c.ty)[kz]), "KeyError", node)
                st.assume(D_dom(c.e, c.ty)[kz])
                return self.elem_ref(st, b, kz, c.ty.args[1], z3.Select(D_val(c.e, c.ty), kz))
            if isinstance(c, V) and c.ty.kind == "List":
                if isinstance(k, tuple):
                    r = self.slice_list(st, c, k, node)
                    return r
                n = L_len(c.e, c.ty)
                kz = self.to_z3(st, k, TInt)
                self.raise_path(st, z3.Or(kz < -n, kz >= n), "IndexError", node)
                st.assume(z3.And(kz >= -n, kz < n))
                kz = kz if z3.is_int_value(kz) and kz.as_long() >= 0 else z3.simplify(z3.If(kz < 0, kz + n, kz))
                return self.elem_ref(st, b, kz, c.ty.args[0], L_arr(c.e, c.ty)[kz])
        h = self.ext.get("getitem")
        if h:
            r = h(self, st, b, k, node)
            if r is not None:
                return r
        raise Unsupported("indexing %r" % (b,), node)

    def slice_list(self, st, c, k, node):
        n = L_len(c.e, c.ty)
        lo = self.to_z3(st, k[1], TInt) if k[1] is not None else z3.IntVal(0)
        hi = self.to_z3(st, k[2], TInt) if k[2] is not None else n
        cl = lambda x: z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x))
        lo, hi = cl(lo), cl(hi)
        r = fresh("slice", c.ty)
        i = z3.Int(fresh_name("i"))
        ln = z3.If(hi > lo, hi - lo, 0)
        st.assume(L_len(r, c.ty) == ln)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), L_arr(r, c.ty)[i] == L_arr(c.e, c.ty)[lo + i]), patterns=[L_arr(r, c.ty)[i]]))
        st.assume(ssub(L_elems(r, c.ty), L_elems(c.e, c.ty), c.ty.args[0]))
        st.assume(z3.Implies(z3.And(lo == 0, hi == n), L_elems(r, c.ty) == L_elems(c.e, c.ty)))
        return self.alloc(st, V(c.ty, r))

    def const_int(self, v):
        if isinstance(v, V):
            e = z3.simplify(self.to_z3(None, v, TInt))
            if z3.is_int_value(e):
                return e.as_long()
        raise Unsupported("non-constant index")

    # ---- comprehensions
    def ev_GeneratorExp(self, e, st, sc):
        # the outermost iterable is evaluated now, the rest when items are asked for
        for s, src in self.ev(e.generators[0].iter, st, sc):
            g = GenV(genexp=e, scope=sc)
            g.outer = src
            yield s, g

    def ev_ListComp(self, e, st, sc):
        yield from self.list_comp(e, st, sc)

    def ev_SetComp(self, e, st, sc):
        for s, it in self.comp_iter(e, st, sc):
            if it.kind == "items":
                t = self.type_of(s, it.items[0]) if it.items else None
                yield s, self.alloc(s, PL(it.items, "Set") if t is None else V(register(TSet(t)), self.content_z3(s, PL(it.items), TSet(t))))
                continue
            se = it.e if it.kind == "set" else L_elems(it.e, it.lty)
            yield s, self.alloc(s, V(register(TSet(it.ety)), se))

    def bind_elem(self, st, it, base="x"):
        """fresh element of iterable; returns (z3 vars, elem expr, value, membership facts)"""
        if it.kind == "list" and it.lty is not None:
            i = z3.Int(fresh_name("i"))
            el = L_arr(it.e, it.lty)[i]
            return [i], el, self.wrap(it.ety, el), [0 <= i, i < L_len(it.e, it.lty)]
        if it.ety.kind == "Tup":
            vs = [z3.Const(fresh_name(base), sort(t)) for t in it.ety.args]
            if any(t.kind == "Tup" for t in it.ety.args):
                raise Unsupported("nested tuple iteration")
            el = T_mk(vs, it.ety)
            return vs, el, PTup([V(t, v) for t, v in zip(it.ety.args, vs)]), [it.e[el]]
        x = z3.Const(fresh_name(base), sort(it.ety))
        return [x], x, V(it.ety, x), [it.e[x]]

    def eval_pure(self, expr, st, sc, target=None, val=None, cond=False, skolem=None):
        """evaluate expr with target bound, requiring one (merged) pure value; -> Value.
        skolem=(variables, their range, state): symbols introduced for the value become functions of the variables, what is known of them is noted for all values in range"""
        s = st.copy()
        if target is not None:
            fid = self.new_id()
            s.frames[fid] = {}
            sub = Scope(fid, sc.info, sc, sc.self_val)
            list(self.assign(s, sub, target, val))
        else:
            sub = sc
        n0 = len(s.facts)
        mark = fresh_counter()
        base = s.copy()
        self.in_pure += 1
        try:
            rs = list(self.ev(expr, s, sub))
        finally:
            self.in_pure -= 1
        if len(rs) == 1:
            s2, v = rs[0]
            if not self.pure_since(base, s2):
                raise Unsupported("side effect in comprehension", expr)
            v = V(TBool, self.truth(s2, v)) if cond else v
            if isinstance(v, Ref) and v.cid not in base.heap:      # a new container: its value
                t = self.type_of(s2, v)
                if t is None:
                    raise Unsupported("comprehension element of unknown type", expr)
                v = V(register(t), self.to_z3(s2, v, t))
            if isinstance(v, V) and uses_fresh_after(v.e, mark) and skolem is not None:
                return V(v.ty, self.skolemize(v.e, s2.facts[n0:], mark, *skolem))
            if isinstance(v, V) and uses_fresh_after(v.e, mark):
                # keep defining facts as part of the value: only allowed when closed
                raise Unsupported("comprehension value defined through fresh symbols", expr)
            return v
        vals = []
        for s2, v in rs:
            if not self.pure_since(base, s2):
                raise Unsupported("side effect in comprehension", expr)
            g = conj(s2.facts[n0:])
            v = V(TBool, self.truth(s2, v)) if cond else v
            if not isinstance(v, V) or uses_fresh_after(v.e, mark) or uses_fresh_after(g, mark):
                raise Unsupported("branching comprehension", expr)
            vals.append((g, v))
        if len({v.ty.key for _, v in vals}) != 1:
            raise Unsupported("comprehension of mixed types", expr)
        r = vals[-1][1].e
        for g, v in reversed(vals[:-1]):
            r = z3.If(g, v.e, r)
        return V(vals[0][1].ty, r)

    def skolemize(self, e, facts, mark, vs, mem, st, trig):
        cs = {}
        for t in [e] + list(facts):
            for c in fresh_consts_after(t, mark):
                cs[c.get_id()] = c
        sub = [(c, z3.Function(fresh_name("sk"), *[v.sort() for v in vs], c.sort())(*vs)) for c in cs.values()]
        e2 = z3.substitute(e, *sub)
        for f in facts:
            f = z3.substitute(f, *sub)
            st.assume(z3.ForAll(vs, z3.Implies(conj(mem), f), patterns=[e2, trig]))
        return e2

    def comp_iter(self, e, st, sc, outer=None):
        """evaluate a comprehension/generator expression to an It"""
        gens = e.generators
        if len(gens) == 2 and not gens[0].ifs and isinstance(e.elt, ast.Tuple):
            raise Unsupported("nested comprehension", e)
        if len(gens) != 1:
            raise Unsupported("nested comprehension", e)
        g = gens[0]
        for s, src in (self.ev(g.iter, st, sc) if outer is None else [(st, outer)]):
            for s2, it in self.as_iter(s, src, e):
                yield from self.comp_over(e, g, s2, it, sc)

    def comp_over(self, e, g, st, it, sc):
        if it.kind == "items":
            states = [(st, [])]
            for x in it.items:
                nxt = []
                for s, acc in states:
                    fid = self.new_id()
                    s.frames[fid] = {}
                    sub = Scope(fid, sc.info, sc, sc.self_val)
                    for s1 in self.assign(s, sub, g.target, x):
                        conds = [(s1, z3.BoolVal(True))]
                        for cexp in g.ifs:
                            conds = [(s3, z3.And(c0, c)) for s2, c0 in conds for s3, c in self.ev_cond(cexp, s2, sub)]
                        for s2, c in conds:
                            c = z3.simplify(c)
                            if not z3.is_true(c) and not z3.is_false(c):
                                a, b = s2.copy().assume(c), s2.copy().assume(z3.Not(c))
                            else:
                                a, b = (s2, None) if z3.is_true(c) else (None, s2)
                            if a is not None and self.feasible(a):
                                for s3, v in self.ev(e.elt, a, sub):
                                    nxt.append((s3, acc + [v]))
                            if b is not None and self.feasible(b):
                                nxt.append((b, acc))
                states = nxt
            for s, acc in states:
                yield s, It("items", items=acc)
            return
        if it.kind == "gen":
            raise Unsupported("comprehension over a generator without contract", e)
        if it.kind == "range":
            from .builtins_model import it_list
            l, lty = it_list(self, st, it)
            it = It("list", ety=TInt, e=l, lty=lty)
        vs, el, val, mem = self.bind_elem(st, it)
        sx = st.copy()
        for f in mem:
            sx.assume(f)
        cond = []
        for cexp in g.ifs:
            cv = self.eval_pure(cexp, sx, sc, g.target, val, cond=True)
            cond.append(cv.e)
            sx.assume(cv.e)
        identity = isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id
        if identity and not g.ifs:
            yield st, it
            return
        v = self.eval_pure(e.elt, sx, sc, g.target, val, skolem=(vs, mem, st, el) if it.kind == "list" and not g.ifs else None)
        ety = self.type_of(sx, v)
        if ety is None:
            raise Unsupported("comprehension element of unknown type", e)
        vz = self.to_z3(sx, v, ety)
        register(ety)
        if it.kind == "list" and not g.ifs:
            lty = register(TList(ety))
            members = ety == TStr or self.target is not None and getattr(self.target.ct, "comp_members", False)
            l = fresh("comp", lty)
            st.assume(L_len(l, lty) == L_len(it.e, it.lty))
            i = vs[0]
            st.assume(z3.ForAll([i], z3.Implies(conj(mem), L_arr(l, lty)[i] == vz), patterns=[L_arr(l, lty)[i]] + ([el] if members else [])))
            if members:
                for t, ty in ((it.e, it.lty), (l, lty)):
                    st.assume(self.indexed(t, ty))
            yield st, It("list", ety=ety, e=l, lty=lty, deps=it.deps)
            return
        # set view
        S = fresh("compset", TSet(ety))
        guard = conj(mem + cond)
        if ety == it.ety and vz.eq(el):
            y = z3.Const(fresh_name("y"), sort(ety))
            if it.kind == "set":
                st.assume(z3.ForAll(vs, S[el] == guard, patterns=[S[el]]))
                if it.ety.kind == "Tup":
                    pass
                yield st, It("set", ety=ety, e=S, unique=it.unique, deps=it.deps)
                return
        y = z3.Const(fresh_name("y"), sort(ety))
        whole = z3.substitute(conj(cond), (el, y)) if identity and it.kind == "list" else None
        if whole is not None and not any(w.eq(vs[0]) for w in free_consts(whole)):
            mem_y = L_elems(it.e, it.lty)[y]
            st.assume(z3.ForAll([y], S[y] == z3.And(mem_y, whole), patterns=[S[y], mem_y]))
        else:
            st.assume(z3.ForAll([y], S[y] == z3.Exists(vs, z3.And(guard, vz == y)), patterns=[S[y]]))
            st.assume(z3.ForAll(vs, z3.Implies(guard, S[vz])))
        res = It("set", ety=ety, e=S, unique=False, deps=it.deps)
        if identity and it.kind == "list":
            res.part_of = (it.e, it.lty)
        yield st, res

    def list_comp(self, e, st, sc):
        for s, it in self.comp_iter(e, st, sc):
            if it.kind == "items":
                yield s, self.alloc(s, PL(it.items))
            elif it.kind == "list":
                yield s, self.alloc(s, V(it.lty, it.e))
            else:
                if it.unique:
                    l, lty = self.list_of_set(s, it.e, it.ety)
                else:
                    lty = register(TList(it.ety))
                    l = fresh("lst", lty)
                    s.assume(L_elems(l, lty) == it.e)
                    if getattr(it, "part_of", None):      # a selection repeats nothing its source does not repeat
                        s.assume(z3.Implies(L_dist(*it.part_of), L_dist(l, lty)))
                        s.assume(L_len(l, lty) <= L_len(*it.part_of))
                yield s, self.alloc(s, V(lty, l))

    def ev_DictComp(self, e, st, sc):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("dict comprehension", e)
        g = e.generators[0]
        for s, src in self.ev(g.iter, st, sc):
            for s2, it in self.as_iter(s, src, e):
                if it.kind == "items":
                    raise Unsupported("dict comprehension over literal items", e)
                vs, el, val, mem = self.bind_elem(s2, it)
                sx = s2.copy()
                for f in mem:
                    sx.assume(f)
                kv = self.eval_pure(e.key, sx, sc, g.target, val)
                kt = self.type_of(sx, kv)
                kz = self.to_z3(sx, kv, kt)
                try:
                    if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id in ("set", "dict", "list") and not e.value.args:
                        raise_empty = e.value.func.id
                    else:
                        raise_empty = None
                except AttributeError:
                    raise_empty = None
                if raise_empty:
                    hint = self.ct_hint_dict(e, kt)
                    vt = hint
                    vz = empty(vt)
                else:
                    vv = self.eval_pure(e.value, sx, sc, g.target, val)
                    vt = self.type_of(sx, vv)
                    vz = self.to_z3(sx, vv, vt)
                ty = register(TDict(kt, vt))
                S = it.e if it.kind == "set" else L_elems(it.e, it.lty)
                en = getattr(it, "enum_of", None)
                if en is not None and kz.eq(T_get(el, 1, it.ety)) or en is not None and kz.eq(z3.simplify(T_get(el, 1, it.ety))):
                    dom = L_elems(en[0], en[1])
                    x = z3.Const(fresh_name("x"), sort(kt))
                    if vz.eq(z3.simplify(T_get(el, 0, it.ety))) and not it.start_nonzero:
                        va0 = z3.Const(fresh_name("val"), z3.ArraySort(sort(kt), sort(vt)))
                        s2.assume(z3.Implies(L_dist(en[0], en[1]), z3.ForAll([x], z3.Implies(dom[x], va0[x] == L_idx(en[0], x, en[1])), patterns=[va0[x]])))
                        i0 = z3.Int(fresh_name("i"))
                        s2.assume(z3.ForAll([x], z3.Implies(dom[x], z3.And(0 <= va0[x], va0[x] < L_len(en[0], en[1]), L_arr(en[0], en[1])[va0[x]] == x)), patterns=[va0[x]]))
                        yield s2, self.alloc(s2, V(ty, D_mk(dom, va0, ty)))
                        continue
                elif kt == it.ety and kz.eq(el) or (z3.simplify(kz == el).eq(z3.BoolVal(True)) if kt == it.ety else False):
                    dom = S
                else:
                    dom = fresh("dom", TSet(kt))
                    y = z3.Const(fresh_name("y"), sort(kt))
                    s2.assume(z3.ForAll([y], dom[y] == z3.Exists(vs, z3.And(conj(mem), kz == y)), patterns=[dom[y]]))
                    s2.assume(z3.ForAll(vs, z3.Implies(conj(mem), dom[kz])))
                if not any(occurs(v, vz) for v in vs):
                    va = z3.K(sort(kt), vz)
                else:
                    va = fresh("val", Ty("x")) if False else z3.Const(fresh_name("val"), z3.ArraySort(sort(kt), sort(vt)))
                    inj = self.injective_key(it, vs, el, kz)
                    if inj is False:
                        raise Unsupported("dict comprehension with possibly repeated keys", e)
                    if inj is not True:
                        s2.assume(z3.Implies(inj, z3.ForAll(vs, z3.Implies(conj(mem), va[kz] == vz))))
                    else:
                        s2.assume(z3.ForAll(vs, z3.Implies(conj(mem), va[kz] == vz), patterns=[va[kz]] if not it.kind == "list" else []))
                yield s2, self.alloc(s2, V(ty, D_mk(dom, va, ty)))

    def injective_key(self, it, vs, el, kz):
        if kz.eq(el) or (kz.sort() == el.sort() and z3.is_true(z3.simplify(kz == el))):
            return True if it.kind == "set" else L_dist(it.e, it.lty)
        if it.kind == "list" and it.ety.kind == "Tup" and getattr(it, "enum_of", None) is not None:
            src, sty = it.enum_of
            return L_dist(src, sty)
        return False

    def ct_hint_dict(self, e, kt):
        ct = self.registry.get(self.target.qual) if self.target else None
        h = getattr(ct, "dict_value_ty", None)
        if h is None:
            h = self.dict_value_hint
        return register(h)

    dict_value_hint = TSet(TNode)

    # ------------------------------------------------------------------ iterables
    def as_iter(self, st, v, node):
        """yields (st, It)"""
        if isinstance(v, OptV):
            v = self.unwrap_opt(st, v, node)
        if isinstance(v, V) and v.ty.kind.startswith("Opq_"):
            r = self.ext["iter"](self, st, v, node)
            if r is not None:
                yield st, r
                return
        if isinstance(v, It):
            yield st, v
            return
        if isinstance(v, PTup):
            yield st, It("items", items=v.items)
            return
        if isinstance(v, V):
            if v.ty.kind in ("Coll", "Set"):
                yield st, It("set", ety=v.ty.args[0], e=v.e)
                return
            if v.ty.kind == "List":
                yield st, It("list", ety=v.ty.args[0], e=v.e, lty=v.ty)
                return
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, PL):
                yield st, It("items", items=c.items, deps=(v.cid,))
                return
            if isinstance(c, PEmpty):
                yield st, It("items", items=[], deps=(v.cid,))
                return
            if isinstance(c, POnce):
                # whoever asks for the items uses all of them up (partial use is refused by the callers below)
                self.set_content(st, v, POnce(empty(c.lty), c.lty))
                yield st, It("list", ety=c.lty.args[0], e=c.e, lty=c.lty, once=True)
                return
            if isinstance(c, V):
                t = c.ty
                if t.kind == "Set":
                    yield st, It("set", ety=t.args[0], e=c.e, deps=(v.cid,))
                    return
                if t.kind == "List":
                    yield st, It("list", ety=t.args[0], e=c.e, lty=t, deps=(v.cid,))
                    return
                if t.kind == "Dict":
                    yield st, It("set", ety=t.args[0], e=D_dom(c.e, t), deps=(v.cid,))
                    return
        if isinstance(v, RangeV):
            lo, hi = v.lo, v.hi
            yield st, It("range", ety=TInt, e=(lo, hi))
            return
        if isinstance(v, GenV):
            if v.genexp is not None:
                yield from self.comp_iter(v.genexp, st, v.scope, v.outer)
                return
            ct = self.registry.get(v.func.info.qual)
            if ct is not None and ct.yields is not None and not (self.target is not None and v.func.info.qual == self.target.qual):
                yield from self.gen_contract_iter(st, v, ct, node)
                return
            yield st, It("gen", items=v)
            return
        h = self.ext.get("iter")
        if h:
            r = h(self, st, v, node)
            if r is not None:
                yield st, r
                return
        raise Unsupported("iteration over %r" % v, node)

    def gen_contract_iter(self, st, v, ct, node):
        c = Ctx(self, st, st, v.args, ct=ct)
        self.used_contracts.add(ct.qual)
        for lbl, f in ct.requires(c):
            self.oblige(st, f, "%s: precondition '%s' of %s" % (self.tname(), lbl, ct.qual), node, "pre")
            st.assume(f)
        for exc, cond in ct.raises(c).items():
            self.raise_path(st, cond, exc, node, "from " + ct.qual)
            st.assume(z3.Not(cond))
        kind, e, ety = ct.yields(c)
        for _, f in ct.gen_facts(c):
            st.assume(f)
        deps = ct.footprint(c) if hasattr(ct, "footprint") else ()
        if kind == "list":
            yield st, It("list", ety=ety.args[0], e=e, lty=register(ety), deps=deps)
        elif kind == "set":      # each exactly once
            yield st, It("set", ety=register(ety), e=e, unique=True, deps=deps)
        else:                    # multiset known by its set only
            yield st, It("set", ety=register(ety), e=e, unique=False, deps=deps)

    def tname(self):
        return self.target.label if self.target else "?"

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e, st, sc):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = sc
            while s is not None and s.info.cls is None:
                s = s.parent
            owner = sc.info.cls
            yield st, SuperV(sc.self_val, owner, is_new=sc.info.name == "__new__")
            return
        for s, f in self.ev(e.func, st, sc):
            nm = f.name if isinstance(f, ExtV) else None
            if nm in SKIP_CALLS:
                yield s, NONE
                continue
            args = []
            if nm is None and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and isinstance(e.args[0].value, ast.GeneratorExp) and isinstance(e.func, ast.Attribute) and e.func.attr == "union":
                yield from self.union_of(e, s, sc)
                continue
            if any(isinstance(a, ast.Starred) for a in e.args):
                yield from self.call_starred(e, s, sc, f)
                continue
            for s2, vals in self.ev_many(list(e.args) + [k.value for k in e.keywords], s, sc):
                pos, kws = vals[:len(e.args)], {}
                ok = True
                for k, v in zip(e.keywords, vals[len(e.args):]):
                    if k.arg is None:
                        if isinstance(v, PDict) or (isinstance(v, Ref) and isinstance(self.content(s2, v), PDict)):
                            kws.update(self.content(s2, v).items if isinstance(v, Ref) else v.items)
                        else:
                            kws["**"] = v
                    else:
                        kws[k.arg] = v
                yield from self.call(s2, f, pos, kws, e, sc)

    def union_of(self, e, st, sc):
        """base.union(*(elt for target in source)), elt a set"""
        gx = e.args[0].value
        g = gx.generators[0]
        if len(gx.generators) != 1 or g.ifs:
            raise Unsupported("union over a nested generator", e)
        for s, b in self.ev(e.func.value, st, sc):
            c = self.content(s, b) if isinstance(b, Ref) else b
            for s2, src in self.ev(g.iter, s, sc):
                for s3, it in self.as_iter(s2, src, e):
                    if it.kind not in ("list", "set"):
                        raise Unsupported("union over %s" % it.kind, e)
                    vs, el, val, mem = self.bind_elem(s3, it)
                    sx = s3.copy()
                    for f in mem:
                        sx.assume(f)
                    v = self.eval_pure(gx.elt, sx, sc, g.target, val)
                    t = self.type_of(sx, v)
                    if t is None or t.kind not in ("Set", "List"):
                        raise Unsupported("union of %s" % t, e)
                    z = self.to_z3(sx, v, t)
                    z = L_elems(z, t) if t.kind == "List" else z
                    ety = t.args[0]
                    first = (lambda x: z3.BoolVal(False)) if isinstance(c, PEmpty) and c.kind == "Set" else None
                    if first is None:
                        if not (isinstance(c, V) and c.ty == TSet(ety)):
                            raise Unsupported("union", e)
                        first = lambda x: c.e[x]
                    zf = z3.Function(fresh_name("part"), *[w.sort() for w in vs], z.sort())(*vs)
                    trig = mem[0] if it.kind == "set" else el
                    s3.assume(z3.ForAll(vs, z3.Implies(conj(mem), zf == z), patterns=[trig, zf]))
                    z = zf
                    U = fresh("union", TSet(ety))
                    x = z3.Const(fresh_name("x"), sort(ety))
                    s3.assume(z3.ForAll([x], U[x] == z3.Or(first(x), z3.Exists(vs, z3.And(mem + [z[x]]))), patterns=[U[x]]))
                    s3.assume(z3.ForAll(vs + [x], z3.Implies(z3.And(mem + [z[x]]), U[x]), patterns=[z3.MultiPattern(trig, z[x])]))
                    yield s3, self.alloc(s3, V(register(TSet(ety)), U))

    def call_starred(self, e, st, sc, f):
        acc = [(st, [])]
        for a in e.args:
            nxt = []
            for s, vs in acc:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s, sc):
                        items = v.items if isinstance(v, PTup) else None
                        if isinstance(v, Ref) and isinstance(self.content(s2, v), PL):
                            items = self.content(s2, v).items
                        if items is None:
                            items = [("star", v)]
                        nxt.append((s2, vs + list(items)))
                else:
                    for s2, v in self.ev(a, s, sc):
                        nxt.append((s2, vs + [v]))
            acc = nxt
        for s, vs in acc:
            for s2, kv in self.ev_many([k.value for k in e.keywords], s, sc):
                kws = {k.arg: v for k, v in zip(e.keywords, kv) if k.arg is not None}
                for k, v in zip(e.keywords, kv):
                    if k.arg is None:
                        c = self.content(s2, v) if isinstance(v, Ref) else v
                        if isinstance(c, PDict):
                            kws.update(c.items)
                        else:
                            kws["**"] = v
                yield from self.call(s2, f, vs, kws, e, sc)

    def call(self, st, f, args, kws, node, sc=None):
        if isinstance(f, SpecF):
            yield from f.fn(self, st, args, kws, node)
            return
        if isinstance(f, FuncV):
            yield from self.call_func(st, f, args, kws, node)
            return
        if isinstance(f, ClassV):
            yield from self.construct(st, f.info, args, kws, node)
            return
        if isinstance(f, ExtV):
            h = self.ext.get(f.name)
            if h is None:
                raise Unsupported("call of external %s" % f.name, node)
            self.used_ext.add(f.name)
            yield from h(self, st, args, kws, node)
            return
        if isinstance(f, BoundM):
            yield from self.call_builtin_method(st, f.recv, f.name, args, kws, node)
            return
        if isinstance(f, ObjRef):
            o = st.objs[f.oid]
            ci = self.class_info(o.cls)
            m = self.prog.method(ci, "__call__") if ci else None
            if m is not None:
                yield from self.call_func(st, FuncV(m, bound=f), args, kws, node)
                return
            spec = self.registry.get(o.cls + ".__call__")
            if spec is not None:
                yield from self.spec_method(spec, f)(self, st, args, kws, node)
                return
        raise Unsupported("call of %r" % f, node)

    def spec_method(self, spec, recv):
        def fn(eng, st, args, kws, node):
            names = spec.arg_names
            bound = {"self": recv}
            for n, a in zip(names, args):
                bound[n] = a
            bound.update(kws)
            yield from eng.apply_contract(st, spec, bound, node)
        return fn

    def construct(self, st, cls, args, kws, node):
        if self.is_enum(cls):
            raise Unsupported("enum construction", node)
        nt = self.namedtuple_fields(cls)
        if nt is not None:
            new = self.prog.method(cls, "__new__")
            if new is None:
                items = list(args) + [kws[n] for n in nt[len(args):]]
                yield st, PTup(items, names=nt, cls=cls.qual)
                return
            yield from self.call_func(st, FuncV(new, bound=ClassV(cls)), args, kws, node)
            return
        cname = None
        for k, spec in self.classspec.items():
            if spec.get("__class__") == cls.qual:
                cname = k
        if cname is None:
            self.classspec[cls.qual] = {"__class__": cls.qual}
            cname = cls.qual
        obj = self.new_obj(st, cname)
        init = self.prog.method(cls, "__init__")
        if init is None:
            yield st, obj
            return
        for s, _ in self.call_func(st, FuncV(init, bound=obj), args, kws, node):
            yield s, obj

    def namedtuple_fields(self, cls):
        for c in self.prog.mro(cls):
            for b in c.node.bases:
                if isinstance(b, ast.Call) and ast.unparse(b.func).endswith("namedtuple"):
                    a = b.args[1]
                    if isinstance(a, (ast.List, ast.Tuple)):
                        return [x.value for x in a.elts]
                    if isinstance(a, ast.Constant):
                        return a.value.replace(",", " ").split()
        return None

    def bind_args(self, st, info, args, kws, node, bound=None, sc=None, defaults=None):
        a = info.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        if bound is not None:
            pos = [bound] + pos
        kws = dict(kws)
        if len(pos) > len(names):
            if a.vararg is None:
                raise Unsupported("too many arguments", node)
            out[a.vararg.arg] = PTup(pos[len(names):])
            pos = pos[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = PTup([])
        for n, v in zip(names, pos):
            out[n] = v
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kws:
                if n in out:
                    self.raise_path(st, z3.BoolVal(True), "TypeError", node, "two values for argument %s" % n)
                    return None
                out[n] = kws.pop(n)
        if a.kwarg is not None:
            star = kws.pop("**", None)
            if star is not None and kws:
                raise Unsupported("mixed ** arguments", node)
            out[a.kwarg.arg] = star if star is not None else self.alloc(st, PDict(kws))
            kws = {}
        if "**" in kws:
            star = kws.pop("**")
            if isinstance(star, Ref) and isinstance(self.content(st, star), PDict):
                kws.update(self.content(st, star).items)
        if kws:
            raise Unsupported("unexpected keyword arguments %s" % list(kws), node)
        dsc = sc or Scope(self.new_id(), info)
        for n, d in zip(reversed(names), reversed(a.defaults)):
            if n not in out:
                out[n] = self.ev1(d, st, dsc)[1]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.ev1(d, st, dsc)[1]
        for n in names:
            if n not in out:
                raise Unsupported("missing argument %s" % n, node)
        return out

    def call_func(self, st, f, args, kws, node):
        info = f.info
        self.modules_used[info.module.name] = info.module
        dsc = f.fid if isinstance(f.fid, Scope) else None
        for d in info.decorators:
            if d not in ("property", "staticmethod"):
                if d.split(".")[-1] in self.transparent_decorators:
                    continue
                dec = self.prog.resolve(info.module, d)
                if dec and dec[0] == "func":
                    # real decorator: apply it symbolically
                    raw = FuncInfo(info.qual + "#undecorated", info.node, info.module, info.cls)
                    raw.decorators = []
                    for s, w in self.call_func(st, FuncV(dec[1]), [FuncV(raw, fid=f.fid)], {}, node):
                        if not isinstance(w, FuncV):
                            raise Unsupported("decorator result", node)
                        a2 = ([f.bound] if f.bound is not None else []) + list(args)
                        yield from self.call_func(s, w, a2, kws, node)
                    return
                raise Unsupported("decorator %s" % d, node)
        bound = self.bind_args(st, info, args, kws, node, f.bound, dsc)
        if bound is None:
            return
        if info.is_gen:
            yield st, GenV(func=f, args=bound)
            return
        ct = self.registry.get(info.qual)
        if ct is not None and not getattr(ct, "inline_at_calls", False) and ct.callable_with(self, st, bound) and not (self.target and self.target.qual == info.qual and self.call_depth == 0):
            yield from self.apply_contract(st, ct, bound, node)
            return
        yield from self.inline(st, f, bound, node)

    transparent_decorators = ()

    def inline(self, st, f, bound, node):
        if self.call_depth > 14:
            raise Unsupported("recursion or deep call without contract: %s" % f.info.qual, node)
        self.inlined.add(f.info.qual)
        fid = self.new_id()
        st.frames[fid] = dict(bound)
        self_val = bound.get("self") if f.info.cls is not None else None
        parent = f.fid if isinstance(f.fid, Scope) else None
        if self_val is None and parent is not None:
            self_val = parent.self_val
        if f.info.name == "__new__":
            self_val = bound.get(f.info.node.args.args[0].arg)
        sc = Scope(fid, f.info, parent, self_val)
        if isinstance(f.info.node, ast.Lambda):
            yield from self.ev(f.info.node.body, st, sc)
            return
        self.call_depth += 1
        self.fid_stack.append(fid)
        try:
            outs = self.exec_block(f.info.node.body, st, sc)
        finally:
            self.call_depth -= 1
            self.fid_stack.pop()
        for o in outs:
            if o.kind == "next":
                yield o.st, NONE
            elif o.kind == "return":
                yield o.st, o.val
            elif o.kind == "consumer":
                raise Unsupported("generator escape", node)
            else:
                raise Unsupported("control flow %s" % o.kind, node)

    def apply_contract(self, st, ct, bound, node):
        self.used_contracts.add(ct.qual)
        hook = getattr(self.target.ct, "before_call", {}).get(ct.qual) if self.target else None
        if hook:      # ghost assertions of the caller's contract at this point: proved, then used
            for lbl, f in hook(Ctx(self, st, self.target.old, self.target.args, frames=list(self.loop_stack), ct=self.target.ct), bound):
                self.oblige(st, f, "%s: before %s: %s" % (self.tname(), ct.qual.split(".")[-1], lbl), node, "ghost")
                st.assume(f)
        pre = st.copy()
        c = Ctx(self, st, pre, bound, ct=ct)
        for lbl, f in ct.requires(c):
            self.oblige(st, f, "%s: precondition '%s' of %s" % (self.tname(), lbl, ct.qual), node, "pre")
            st.assume(f)
        for exc, cond in ct.raises(c).items():
            self.raise_path(st, cond, exc, node, "from " + ct.qual)
            st.assume(z3.Not(cond))
        if ct.may_raise or not ct.raises_unchanged and ct.raises(c) and not getattr(ct, "constructor", False):
            raise Unsupported("contract of %s does not support calls" % ct.qual, node)
        for item in ct.modifies(c):
            self.havoc_item(st, item, ct)
        c2 = Ctx(self, st, pre, bound, ct=ct)
        c2.result = ct.result(self, st, c2)
        for lbl, f in ct.ensures(c2):
            st.assume(f)
        yield st, c2.result

    def havoc_item(self, st, item, ct):
        if isinstance(item, Ref):
            cell = st.heap[item.cid]
            if isinstance(cell.c, POnce):
                st.heap[item.cid] = Cell(POnce(fresh("left", cell.c.lty), cell.c.lty), cell.epoch + 1, cell.escaped)
                return
            if isinstance(cell.c, PMap):
                st.heap[item.cid] = Cell(PMap(unknown=True), cell.epoch + 1, cell.escaped)
                return
            if not isinstance(cell.c, V):
                raise Unsupported("havoc of untyped container")
            if item.path:
                c = self.content(st, item)
                self.set_content(st, item, V(c.ty, fresh("mod", c.ty)))
            else:
                st.heap[item.cid] = Cell(V(cell.c.ty, fresh("mod", cell.c.ty)), cell.epoch + 1, cell.escaped)
        elif isinstance(item, tuple) and isinstance(item[0], ObjRef):
            o = st.objs[item[0].oid]
            old = o.fields.get(item[1])
            if isinstance(old, Ref):
                self.havoc_item(st, old, ct)
            elif isinstance(old, V):
                o.fields[item[1]] = V(old.ty, fresh("mod", old.ty))
            else:
                ty = self.classspec.get(o.cls, {}).get(item[1])
                o.fields[item[1]] = self.havoc_value(st, ty, item[1])
        else:
            raise Unsupported("havoc item")

    # ---- builtin methods of containers
    def call_builtin_method(self, st, b, name, args, kws, node):
        h = self.ext.get("method")
        if h:
            r = h(self, st, b, name, args, kws, node)
            if r is not None:
                yield from r
                return
        if isinstance(b, SuperV) and name == "__new__":
            yield st, PTup(args[1:], names=self.namedtuple_fields(b.after), cls=b.after.qual)
            return
        if isinstance(b, SuperV) and name == "__init__":
            yield st, NONE
            return
        if isinstance(b, PStr):
            if name == "join":
                from .builtins_model import it_list
                if b.const is not None:
                    for s2, it in self.as_iter(st, args[0], node):
                        if it.kind in ("list", "set") and it.ety == TStr:
                            l, lty = it_list(self, s2, it)
                            yield s2, self.str_join(s2, b.const, l, lty)
                        else:
                            yield s2, V(TStr, fresh("joined", TStr))
                    return
                yield st, V(TStr, fresh("joined", TStr))
                return
            if name == "format":
                yield st, PStr(b.parts + list(args))
                return
        if isinstance(b, V) and b.ty.kind == "Coll" and name == "copy":
            yield st, b
            return
        if not isinstance(b, Ref):
            raise Unsupported("method %s of %r" % (name, b), node)
        c = self.content(st, b)
        if isinstance(c, PL) and c.kind == "List":
            if name == "append":
                self.escape(st, args[0])
                self.set_content(st, b, PL(c.items + [args[0]]))
                yield st, NONE
                return
            if name == "copy":
                yield st, self.alloc(st, PL(c.items))
                return
            if name == "extend":
                for s, it in self.iter_collect(st, args[0], node):
                    if it.kind == "items":
                        self.set_content(s, b, PL(c.items + it.items))
                        yield s, NONE
                        continue
                    lty = register(TList(it.ety))
                    l = self.content_z3(s, c, lty)
                    m = it.e if it.kind == "list" else self.list_of_set(s, it.e, it.ety)[0]
                    self.set_content(s, b, V(lty, self.list_concat(s, l, m, lty)))
                    yield s, NONE
                return
            if name == "insert" and self.const_int(args[0]) == 0:
                self.set_content(st, b, PL([args[1]] + c.items))
                yield st, NONE
                return
            if not c.items:
                raise Unsupported("method %s of empty literal list" % name, node)
            ty = register(self.type_of(st, b))
            c = V(ty, self.content_z3(st, c, ty))
            self.set_content(st, b, c)
        if isinstance(c, PEmpty):
            if c.kind == "Set":
                if name in ("add",):
                    t = self.type_of(st, args[0])
                    if t is None:
                        raise Unsupported("set of unknown type", node)
                    c = V(register(TSet(t)), empty_set(t))
                    self.set_content(st, b, c)
                elif name in ("update", "union"):
                    if len(args) == 1:
                        for s, it in self.as_iter(st, args[0], node):
                            if it.kind == "items":
                                raise Unsupported("update with literal", node)
                            e = it.e if it.kind == "set" else L_elems(it.e, it.lty)
                            v = V(register(TSet(it.ety)), e)
                            if name == "union":
                                yield s, self.alloc(s, v)
                            else:
                                self.set_content(s, b, v)
                                yield s, NONE
                        return
                    raise Unsupported("union of several", node)
                elif name == "copy":
                    yield st, self.alloc(st, PEmpty("Set"))
                    return
                else:
                    raise Unsupported("method %s of empty set" % name, node)
            elif c.kind == "Dict":
                if name in ("keys", "values", "items"):
                    yield st, It("items", items=[], deps=(b.cid,))
                    return
                if name == "get":
                    yield st, args[1] if len(args) > 1 else NONE
                    return
                if name == "__contains__":
                    yield st, V(TBool, z3.BoolVal(False))
                    return
                if name == "setdefault" and len(args) == 2:
                    kt = self.type_of(st, args[0])
                    vt = self.type_of(st, args[1]) or self.ct_hint_dict(node, kt)
                    ty = register(TDict(kt, vt))
                    c = V(ty, empty(ty))
                    self.set_content(st, b, c)
                else:
                    raise Unsupported("method %s of empty dict of unknown type" % name, node)
        if isinstance(c, PMap):
            if name == "__contains__":
                yield st, V(TBool, self.pmap_find(st, c, args[0], node)[1])
                return
            if name == "get":
                has = self.pmap_find(st, c, args[0], node)[1]
                if not c.entries or z3.is_false(has):
                    yield st, args[1] if len(args) > 1 else NONE
                    return
                val = self.pmap_get(st, c, args[0], node)
                if len(args) > 1 and args[1] is not NONE:
                    yield st, self.merge_val(st, has, val, args[1], node)
                else:
                    yield st, OptV(z3.Not(has), val)
                return
            if name == "clear":
                self.set_content(st, b, PMap())
                yield st, NONE
                return
            raise Unsupported("method %s of a cache" % name, node)
        if isinstance(c, PDict):
            if name == "__contains__" and args[0].const is not None:
                yield st, V(TBool, z3.BoolVal(args[0].const in c.items))
                return
            if name == "get" and args[0].const is not None:
                yield st, c.items.get(args[0].const, args[1] if len(args) > 1 else NONE)
                return
        if not isinstance(c, V):
            raise Unsupported("method %s of untyped container" % name, node)
        t = c.ty
        meth = getattr(self, "m_%s_%s" % (t.kind.lower(), name), None)
        if meth is None:
            raise Unsupported("method %s of %s" % (name, t.kind), node)
        yield from meth(st, b, c, args, kws, node)

    # set methods
    def m_set_add(self, st, b, c, args, kws, node):
        self.set_content(st, b, V(c.ty, sadd(c.e, self.to_z3(st, args[0], c.ty.args[0]))))
        yield st, NONE

    def m_set_remove(self, st, b, c, args, kws, node):
        x = self.to_z3(st, args[0], c.ty.args[0])
        self.raise_path(st, z3.Not(c.e[x]), "KeyError", node)
        st.assume(c.e[x])
        self.set_content(st, b, V(c.ty, sdel(c.e, x)))
        yield st, NONE

    def m_set_discard(self, st, b, c, args, kws, node):
        self.set_content(st, b, V(c.ty, sdel(c.e, self.to_z3(st, args[0], c.ty.args[0]))))
        yield st, NONE

    def _other_set(self, st, a, ty, node):
        for s, it in self.as_iter(st, a, node):
            if it.kind == "items":
                yield s, self.content_z3(s, PL(it.items), ty)
            elif it.kind == "set":
                yield s, it.e
            elif it.kind == "list":
                yield s, L_elems(it.e, it.lty)
            else:
                raise Unsupported("set operation with a generator", node)

    def m_set_update(self, st, b, c, args, kws, node):
        for s, e in self._other_set(st, args[0], c.ty, node):
            self.set_content(s, b, V(c.ty, sunion(self.content(s, b).e, e)))
            yield s, NONE

    def m_set_union(self, st, b, c, args, kws, node):
        if not args:
            yield st, self.alloc(st, V(c.ty, c.e))
            return
        for s, e in self._other_set(st, args[0], c.ty, node):
            yield s, self.alloc(s, V(c.ty, sunion(c.e, e)))

    def m_set_intersection(self, st, b, c, args, kws, node):
        for s, e in self._other_set(st, args[0], c.ty, node):
            yield s, self.alloc(s, V(c.ty, sinter(c.e, e)))

    def m_set_difference(self, st, b, c, args, kws, node):
        for s, e in self._other_set(st, args[0], c.ty, node):
            yield s, self.alloc(s, V(c.ty, sdiff(c.e, e)))

    def m_set_issubset(self, st, b, c, args, kws, node):
        for s, e in self._other_set(st, args[0], c.ty, node):
            yield s, V(TBool, ssub(c.e, e, c.ty.args[0]))

    def m_set_copy(self, st, b, c, args, kws, node):
        yield st, self.alloc(st, V(c.ty, c.e))

    def m_set_pop(self, st, b, c, args, kws, node):
        self.raise_path(st, c.e == empty_set(c.ty.args[0]), "KeyError", node)
        x = fresh("popped", c.ty.args[0])
        st.assume(c.e[x])
        self.set_content(st, b, V(c.ty, sdel(c.e, x)))
        yield st, self.wrap(c.ty.args[0], x)

    # list methods
    def m_list_append(self, st, b, c, args, kws, node):
        x = self.to_z3(st, args[0], c.ty.args[0])
        self.escape(st, args[0])
        self.set_content(st, b, V(c.ty, self.list_append(st, c.e, x, c.ty)))
        yield st, NONE

    def m_list_popleft(self, st, b, c, args, kws, node):
        n = L_len(c.e, c.ty)
        self.raise_path(st, n <= 0, "IndexError", node)
        st.assume(n > 0)
        h, r = self.list_pop_front(st, c.e, c.ty)
        self.set_content(st, b, V(c.ty, r), structural=True)
        yield st, self.wrap(c.ty.args[0], h)

    def m_list_pop(self, st, b, c, args, kws, node):
        if args and self.const_int(args[0]) == 0:
            yield from self.m_list_popleft(st, b, c, [], {}, node)
            return
        if args and self.const_int(args[0]) != -1:
            raise Unsupported("pop(index)", node)
        n = L_len(c.e, c.ty)
        self.raise_path(st, n <= 0, "IndexError", node)
        st.assume(n > 0)
        h, r = self.list_pop_back(st, c.e, c.ty)
        self.set_content(st, b, V(c.ty, r), structural=True)
        yield st, self.wrap(c.ty.args[0], h)

    def m_list_remove(self, st, b, c, args, kws, node):
        x = self.to_z3(st, args[0], c.ty.args[0])
        el = L_elems(c.e, c.ty)
        self.raise_path(st, z3.Not(el[x]), "ValueError", node)
        st.assume(el[x])
        self.set_content(st, b, V(c.ty, self.list_remove(st, c.e, x, c.ty)), structural=True)
        yield st, NONE

    def m_list_index(self, st, b, c, args, kws, node):
        x = self.to_z3(st, args[0], c.ty.args[0])
        el = L_elems(c.e, c.ty)
        self.raise_path(st, z3.Not(el[x]), "ValueError", node)
        st.assume(el[x])
        yield st, V(TInt, L_idx(c.e, x, c.ty))

    def m_list_copy(self, st, b, c, args, kws, node):
        yield st, self.alloc(st, V(c.ty, c.e))

    def m_list_extend(self, st, b, c, args, kws, node):
        for s, it in self.iter_collect(st, args[0], node):
            cur = self.content(s, b)
            if it.kind == "items":
                e = cur.e
                for x in it.items:
                    e = self.list_append(s, e, self.to_z3(s, x, c.ty.args[0]), c.ty)
            else:
                if it.kind == "list":
                    m = it.e
                elif it.kind == "set":
                    m = fresh("ext", c.ty)
                    s.assume(L_elems(m, c.ty) == it.e)
                    if it.unique:
                        s.assume(L_dist(m, c.ty))
                else:
                    raise Unsupported("extend", node)
                e = self.list_concat(s, cur.e, m, c.ty)
            self.set_content(s, b, V(c.ty, e))
            yield s, NONE

    m_list_appendleft = None

    # dict methods
    def m_dict_keys(self, st, b, c, args, kws, node):
        yield st, It("set", ety=c.ty.args[0], e=D_dom(c.e, c.ty), deps=(b.cid,))

    def m_dict_items(self, st, b, c, args, kws, node):
        kt, vt = c.ty.args
        if vt.mutable or vt.kind == "Tup" or kt.kind == "Tup":
            raise Unsupported("items() of a dictionary of %s" % vt, node)
        pt = register(TTup(kt, vt))
        S = fresh("items", TSet(pt))
        k, v = z3.Const(fresh_name("k"), sort(kt)), z3.Const(fresh_name("v"), sort(vt))
        in_ = S[T_mk([k, v], pt)]
        st.assume(z3.ForAll([k, v], in_ == z3.And(D_dom(c.e, c.ty)[k], D_val(c.e, c.ty)[k] == v), patterns=[in_]))
        st.assume(z3.ForAll([k], z3.Implies(D_dom(c.e, c.ty)[k], S[T_mk([k, D_val(c.e, c.ty)[k]], pt)]), patterns=[D_dom(c.e, c.ty)[k]]))
        yield st, It("set", ety=pt, e=S, deps=(b.cid,))

    def m_dict_values(self, st, b, c, args, kws, node):
        kt, vt = c.ty.args
        if vt.mutable or kt.kind == "Tup":
            raise Unsupported("values() of a dictionary of %s" % vt, node)
        S = fresh("values", TSet(vt))
        k, v = z3.Const(fresh_name("k"), sort(kt)), z3.Const(fresh_name("v"), sort(vt))
        st.assume(z3.ForAll([v], S[v] == z3.Exists([k], z3.And(D_dom(c.e, c.ty)[k], D_val(c.e, c.ty)[k] == v)), patterns=[S[v]]))
        st.assume(z3.ForAll([k], z3.Implies(D_dom(c.e, c.ty)[k], S[D_val(c.e, c.ty)[k]]), patterns=[D_dom(c.e, c.ty)[k]]))
        yield st, It("set", ety=vt, e=S, deps=(b.cid,), unique=False)

    def m_dict___contains__(self, st, b, c, args, kws, node):
        yield st, V(TBool, D_dom(c.e, c.ty)[self.to_z3(st, args[0], c.ty.args[0])])

    def m_dict_get(self, st, b, c, args, kws, node):
        k = self.to_z3(st, args[0], c.ty.args[0])
        d = args[1] if len(args) > 1 else NONE
        has = D_dom(c.e, c.ty)[k]
        v = self.elem_ref(st, b, k, c.ty.args[1], z3.Select(D_val(c.e, c.ty), k))
        if d is NONE:
            yield st, OptV(z3.Not(has), v)
            return
        a, bb = st.copy().assume(has), st.copy().assume(z3.Not(has))
        if self.feasible(a):
            yield a, v
        if self.feasible(bb):
            yield bb, d

    def m_dict_update(self, st, b, c, args, kws, node):
        o = self.content(st, args[0]) if isinstance(args[0], Ref) else None
        if not (isinstance(o, V) and o.ty == c.ty):
            raise Unsupported("dict.update", node)
        keys = self.literal_keys(o)
        e = c.e
        if keys is None:
            raise Unsupported("dict.update with a non-literal", node)
        for k, v in keys:
            e = D_mk(sadd(D_dom(e, c.ty), k), z3.Store(D_val(e, c.ty), k, v), c.ty)
        self.set_content(st, b, V(c.ty, e), structural=c.ty.args[1].mutable)
        yield st, NONE

    def literal_keys(self, o):
        """[(k,v)] if the dict was built from a literal in this state"""
        out = []
        e = z3.simplify(o.e)
        t = o.ty
        if not (z3.is_app(e) and e.num_args() == 2):
            return None
        v = e.arg(1)
        d = e.arg(0)
        while z3.is_store(v):
            out.append((v.arg(1), v.arg(2)))
            v = v.arg(0)
        n = 0
        while z3.is_store(d):
            n += 1
            d = d.arg(0)
        if not (z3.is_const_array(v) or z3.is_const(v)) or not z3.is_const_array(d) or n != len(out):
            return None
        return list(reversed(out))

    def m_dict_pop(self, st, b, c, args, kws, node):
        k = self.to_z3(st, args[0], c.ty.args[0])
        has = D_dom(c.e, c.ty)[k]
        if len(args) < 2:
            self.raise_path(st, z3.Not(has), "KeyError", node)
            st.assume(has)
        old = z3.Select(D_val(c.e, c.ty), k)
        self.set_content(st, b, V(c.ty, D_mk(sdel(D_dom(c.e, c.ty), k), D_val(c.e, c.ty), c.ty)), structural=c.ty.args[1].mutable)
        if len(args) < 2:
            yield st, (V(c.ty.args[1], old) if not c.ty.args[1].mutable else self.alloc(st, V(c.ty.args[1], old)))
            return
        if args[1] is NONE and not c.ty.args[1].mutable:
            yield st, OptV(z3.Not(has), V(c.ty.args[1], old))
            return
        yield st, NONE if c.ty.args[1].mutable else V(TStr, fresh("popres", TStr))

    def m_dict_copy(self, st, b, c, args, kws, node):
        if c.ty.args[1].mutable:
            raise Unsupported("shallow copy of nested dict", node)
        yield st, self.alloc(st, V(c.ty, c.e))

    def m_dict_setdefault(self, st, b, c, args, kws, node):
        k = self.to_z3(st, args[0], c.ty.args[0])
        d = self.to_z3(st, args[1], c.ty.args[1])
        self.escape(st, args[1])
        has = D_dom(c.e, c.ty)[k]
        val = fresh("kept", c.ty.args[1])
        st.assume(val == z3.If(has, z3.Select(D_val(c.e, c.ty), k), d))
        self.set_content(st, b, V(c.ty, D_mk(sadd(D_dom(c.e, c.ty), k), z3.Store(D_val(c.e, c.ty), k, val), c.ty)))
        yield st, self.elem_ref(st, b, k, c.ty.args[1], val)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, sc):
        outs = []
        cur = [st]
        for i, s in enumerate(stmts):
            nxt = []
            for x in cur:
                for o in self.exec_stmt(s, x, sc):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
            if not cur:
                break
            if len(cur) > 400:
                raise Unsupported("too many paths", s)
        return outs + [Out("next", x) for x in cur]

    def exec_stmt(self, s, st, sc):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__, s)
        return m(s, st, sc)

    def st_Pass(self, s, st, sc):
        return [Out("next", st)]

    st_Import = st_ImportFrom = st_Nonlocal = st_Global = st_Pass

    def st_Expr(self, s, st, sc):
        if isinstance(s.value, ast.Constant):
            return [Out("next", st)]
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, st, sc)
        if isinstance(s.value, ast.YieldFrom):
            # yield from X  ==  for v in X: yield v
            loop = ast.For(target=ast.Name("__yf", ast.Store()), iter=s.value.value,
                           body=[ast.Expr(ast.Yield(ast.Name("__yf", ast.Load())))], orelse=[], lineno=s.lineno)
            ast.copy_location(loop, s)
            ast.fix_missing_locations(loop)
            return self.st_For(loop, st, sc)
        return [Out("next", s2) for s2, _ in self.ev(s.value, st, sc)]

    def do_yield(self, y, st, sc):
        outs = []
        for s, v in self.ev(y.value, st, sc):
            h = self.yield_handlers[-1]
            saved = self.yield_handlers.pop()
            try:
                outs += h(s, v, y)
            finally:
                self.yield_handlers.append(saved)
        return outs

    def st_Assign(self, s, st, sc):
        outs = []
        for s1, v in self.ev(s.value, st, sc):
            states = [s1]
            for t in s.targets:
                states = [s3 for s2 in states for s3 in self.assign(s2, sc, t, v)]
            outs += [Out("next", x) for x in states]
        return outs

    def st_AnnAssign(self, s, st, sc):
        if s.value is None:
            return [Out("next", st)]
        return [Out("next", x) for s1, v in self.ev(s.value, st, sc) for x in self.assign(s1, sc, s.target, v)]

    def st_AugAssign(self, s, st, sc):
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s.target)
        ast.copy_location(load, s.target)
        for n in ast.walk(load):
            n.lineno = s.lineno
        outs = []
        for s1, a in self.ev(load, st, sc):
            for s2, b in self.ev(s.value, s1, sc):
                if isinstance(a, Ref):
                    c = self.content(s2, a)
                    if isinstance(s.op, ast.BitOr) and ((isinstance(c, V) and c.ty.kind == "Set") or (isinstance(c, PEmpty) and c.kind == "Set")):
                        t = c.ty if isinstance(c, V) else self.type_of(s2, b)
                        if t is None:
                            raise Unsupported("|= on untyped set", s)
                        for s3, e in self._other_set(s2, b, t, s):
                            cur = self.content(s3, a)
                            self.set_content(s3, a, V(t, sunion(self.content_z3(s3, cur, t), e)))
                            outs.append(Out("next", s3))
                        continue
                    if isinstance(s.op, (ast.Sub, ast.BitAnd)) and isinstance(c, V) and c.ty.kind == "Set":
                        for s3, e in self._other_set(s2, b, c.ty, s):
                            self.set_content(s3, a, V(c.ty, (sdiff if isinstance(s.op, ast.Sub) else sinter)(self.content(s3, a).e, e)))
                            outs.append(Out("next", s3))
                        continue
                    if isinstance(s.op, ast.Add) and (isinstance(c, PL) or (isinstance(c, V) and c.ty.kind == "List")):
                        for s3, _ in self.call_builtin_method(s2, a, "extend", [b], {}, s):
                            outs.append(Out("next", s3))
                        continue
                v = self.binop(s2, s.op, a, b, s)
                for s3 in self.assign(s2, sc, s.target, v):
                    outs.append(Out("next", s3))
        return outs

    def st_Assert(self, s, st, sc):
        outs = []
        for s1, c in self.ev_cond(s.test, st, sc):
            self.raise_path(s1, z3.Not(c), "AssertionError", s)
            if z3.is_false(z3.simplify(c)):
                continue
            s1.assume(c)
            outs.append(Out("next", s1))
        return outs

    def st_Raise(self, s, st, sc):
        exc = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            exc = e.id
        elif isinstance(e, ast.Attribute):
            exc = e.attr
        self.raise_path(st, z3.BoolVal(True), exc, s)
        return []

    def st_Return(self, s, st, sc):
        if s.value is None:
            return [Out("return", st, NONE)]
        return [Out("return", s1, v) for s1, v in self.ev(s.value, st, sc)]

    def st_Break(self, s, st, sc):
        return [Out("break", st)]

    def st_Continue(self, s, st, sc):
        return [Out("continue", st)]

    def st_If(self, s, st, sc):
        outs = []
        for s1, c in self.ev_cond(s.test, st, sc):
            c = z3.simplify(c)
            if z3.is_true(c):
                outs += self.exec_block(s.body, s1, sc)
                continue
            if z3.is_false(c):
                outs += self.exec_block(s.orelse, s1, sc)
                continue
            a, b = s1.copy().assume(c), s1.assume(z3.Not(c))
            if self.feasible(a):
                outs += self.exec_block(s.body, a, sc)
            if self.feasible(b):
                outs += self.exec_block(s.orelse, b, sc)
        return outs

    def st_FunctionDef(self, s, st, sc):
        info = FuncInfo(sc.info.qual + "." + s.name, s, sc.info.module, sc.info.cls)
        st.frames[sc.fid][s.name] = FuncV(info, fid=sc)
        return [Out("next", st)]

    def st_Delete(self, s, st, sc):
        outs = [st]
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                nxt = []
                for x in outs:
                    for s1, b in self.ev(t.value, x, sc):
                        for s2, k in self.ev_index(t.slice, s1, sc):
                            for s3, _ in self.call_builtin_method(s2, b, "pop", [k], {}, s):
                                nxt.append(s3)
                outs = nxt
            elif isinstance(t, ast.Name):
                for x in outs:
                    x.frames[sc.fid].pop(t.id, None)
            else:
                raise Unsupported("del", s)
        return [Out("next", x) for x in outs]

    def st_With(self, s, st, sc):
        raise Unsupported("with statement", s)

    def st_Try(self, s, st, sc):
        if s.finalbody or s.orelse:
            raise Unsupported("try/finally", s)
        self.sinks.append([])
        try:
            outs = self.exec_block(s.body, st, sc)
        finally:
            raised = self.sinks.pop()
        for rst, exc, node, msg in raised:
            handled = False
            for h in s.handlers:
                nm = None if h.type is None else ast.unparse(h.type).split(".")[-1]
                if nm in (None, "Exception", "BaseException", exc):
                    if self.feasible(rst):
                        if h.name:
                            rst.frames[sc.fid][h.name] = V(TStr, fresh("exc", TStr))
                        outs += self.exec_block(h.body, rst, sc)
                    handled = True
                    break
            if not handled:
                self.sinks[-1].append((rst, exc, node, msg))
        return outs

    # ------------------------------------------------------------------ loops
    def loop_key(self, node):
        parent = self.loop_stack[-1].key if self.loop_stack else ()
        site = (parent, id(node), tuple(self.fid_sites()))
        d = self.loop_ord.setdefault(parent, {})
        k = (id(node),)
        if k not in d:
            d[k] = len(d)
        return parent + (d[k],)

    def fid_sites(self):
        return ()

    def invariants(self, st, old_frames, frame, sc):
        """list of (label, formula) for the current loop in state st"""
        ct = self.target.ct
        fn = self.loop_fn(frame.key)
        c = Ctx(self, st, self.target.old, self.target.args, frames=old_frames + [frame], scope=sc,
                yielded=st.ghost.get("yielded"), ct=ct)
        out = list(fn(c)) if fn else []
        # every loop keeps the frame: things the contract does not list as modified
        return out

    def loop_fn(self, key):
        ct = self.target.ct
        loops = ct.loops
        return loops.get(key)

    def st_For(self, s, st, sc):
        outs = []
        for s1, src in self.ev(s.iter, st, sc):
            for s2, it in self.as_iter(s1, src, s):
                outs += self.run_for(s, s2, it, sc,
                                     lambda x, v: [o for y in self.assign(x, sc, s.target, v) for o in self.exec_block(s.body, y, sc)],
                                     s.orelse)
        return outs

    def run_for(self, node, st, it, sc, body, orelse=()):
        if it.kind == "items":
            if isinstance(node, ast.For):
                self.loop_key(node)      # keeps the numbering of the loops that follow
            return self.unroll(node, st, it.items, sc, body, orelse)
        if it.kind == "gen":
            return self.inline_gen_loop(node, st, it.items, sc, body, orelse)
        if it.kind == "map":
            return self.map_loop(node, st, it, sc, body, orelse)
        if it.kind == "range":
            lo, hi = it.e
            l, h = z3.simplify(lo), z3.simplify(hi)
            if z3.is_int_value(l) and z3.is_int_value(h) and h.as_long() - l.as_long() <= 8:
                return self.unroll(node, st, [V(TInt, z3.IntVal(i)) for i in range(l.as_long(), h.as_long())], sc, body, orelse)
        return self.inv_for(node, st, it, sc, body, orelse)

    def map_loop(self, node, st, it, sc, body, orelse):
        f, srcs = it.items
        if len(srcs) != 1:
            return self.lockstep_map(node, st, f, srcs, sc, body, orelse)

        def body2(s, x):
            return [o for s2, v in self.call(s, f, [x], {}, node) for o in body(s2, v)]
        return self.run_for(node, st, srcs[0], sc, body2, orelse)

    def lockstep_map(self, node, st, f, srcs, sc, body, orelse):
        """for x in map(f, (e1(y) for y in G()), (e2(y) for y in G())): the generators are the same code on the same arguments, advance
        in turn with nothing run in between, and change nothing themselves, so at every step they produce equal items"""
        if not all(isinstance(g, GenV) and g.genexp is not None and len(g.genexp.generators) == 1 and not g.genexp.generators[0].ifs and isinstance(g.outer, GenV)
                   and g.outer.func is not None for g in srcs):
            raise Unsupported("map over several iterables", node)
        first = srcs[0].outer
        ct = self.registry.get(first.func.info.qual)
        for g in srcs:
            if g.outer.func.info.qual != first.func.info.qual or set(g.outer.args) != set(first.args) or not all(same_val(g.outer.args[n], first.args[n]) for n in first.args):
                raise Unsupported("map over different iterables", node)
            if not all(isinstance(n, (ast.Name, ast.Subscript, ast.Constant, ast.Index, ast.Load, ast.Tuple)) for n in ast.walk(g.genexp.elt)):
                raise Unsupported("map over iterables that compute", node)
        if ct is None or ct.trusted or ct.modifies(Ctx(self, st, st, first.args, ct=ct)):
            raise Unsupported("map over generators that may change something", node)
        self.used_contracts.add(ct.qual)      # that the generator changes nothing

        def body2(s, x):
            rows = [(s, [])]
            for g in srcs:
                nxt = []
                for s1, vs in rows:
                    fid = self.new_id()
                    s1.frames[fid] = {}
                    sub = Scope(fid, g.scope.info, g.scope, g.scope.self_val)
                    nxt += [(s3, vs + [v]) for s2 in self.assign(s1, sub, g.genexp.generators[0].target, x) for s3, v in self.ev(g.genexp.elt, s2, sub)]
                rows = nxt
            return [o for s1, vs in rows for s2, v in self.call(s1, f, vs, {}, node) for o in body(s2, v)]
        return self.run_for(node, st, It("gen", items=first), sc, body2, orelse)

    def iter_collect(self, st, v, node):
        for s, it in self.as_iter(st, v, node):
            if it.kind == "map":
                yield from self.map_collect(s, it, node)
            else:
                yield s, it

    def map_collect(self, st, it, node):
        """list(map(f, xs)) / tuple(map(f, xs)): as a comprehension if f is pure, else as a loop (result dropped)"""
        f, srcs = it.items
        src = srcs[0]
        info = FuncInfo("map", ast.parse("def f(): pass").body[0], self.cur_module(f))
        fid = self.new_id()
        st.frames[fid] = {"__f": f}
        sc = Scope(fid, info)
        gx = ast.parse("[__f(__x) for __x in __xs]", mode="eval").body
        for n in ast.walk(gx):
            if hasattr(n, "lineno"):
                n.lineno = getattr(node, "lineno", 0)
        n0 = len(self.obls)
        try:
            out = list(self.comp_over(gx, gx.generators[0], st.copy(), src, sc))
            yield from out
            return
        except Unsupported:
            del self.obls[n0:]
        outs = self.run_for(node, st, src, sc, lambda s, x: [Out("next", s2) for s2, _ in self.call(s, f, [x], {}, node)])
        for o in outs:
            if o.kind != "next":
                raise Unsupported("control flow in map", node)
            yield o.st, It("opaque")

    def cur_module(self, f):
        if isinstance(f, FuncV):
            return f.info.module
        m = self.prog.find(self.target.qual)
        return m.module

    def unroll(self, node, st, items, sc, body, orelse):
        outs, cur, broke = [], [st], []
        for x in items:
            nxt = []
            for s in cur:
                for o in body(s, x):
                    if o.kind in ("next", "continue"):
                        nxt.append(o.st)
                    elif o.kind == "break":
                        broke.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
        for s in cur:
            outs += self.exec_block(list(orelse), s, sc) if orelse else [Out("next", s)]
        return outs + [Out("next", s) for s in broke]

    def inline_gen_loop(self, node, st, gen, sc, body, orelse):
        """run the generator's own body, with the loop body at each yield"""
        f = gen.func
        fid = self.new_id()
        st.frames[fid] = dict(gen.args)
        gsc = Scope(fid, f.info, f.fid if isinstance(f.fid, Scope) else None, gen.args.get("self"))
        self.inlined.add(f.info.qual)
        token = object()

        def handler(s, v, y):
            res = []
            for o in body(s, v):
                if o.kind in ("next", "continue"):
                    res.append(Out("next", o.st))
                elif o.kind == "break":
                    res.append(Out(("gbreak", token), o.st))
                else:
                    res.append(Out(("gout", token), o.st, o))
            return res
        self.yield_handlers.append(handler)
        self.call_depth += 1
        self.fid_stack.append(fid)
        try:
            if self.call_depth > 14:
                raise Unsupported("deep generator nesting", node)
            outs = self.exec_block(f.info.node.body, st, gsc)
        finally:
            self.yield_handlers.pop()
            self.call_depth -= 1
            self.fid_stack.pop()
        res = []
        for o in outs:
            if o.kind in ("next", "return"):
                res += self.exec_block(list(orelse), o.st, sc) if orelse else [Out("next", o.st)]
            elif isinstance(o.kind, tuple) and o.kind[1] is token:
                if o.kind[0] == "gbreak":
                    res.append(Out("next", o.st))
                else:
                    res.append(Out(o.val.kind, o.st, o.val.val))
            else:
                res.append(o)
        return res

    def modified(self, pre, outs):
        cells, vars_, fields, ghosts = set(), set(), set(), set()
        for o in outs:
            st = o.st
            for k, v in pre.heap.items():
                w = st.heap.get(k)
                if w is not v and not (w is not None and same_cell(v, w)):
                    cells.add(k)
            for fid, fr in pre.frames.items():
                g = st.frames.get(fid, {})
                for n in set(fr) | set(g):
                    if g.get(n) is not fr.get(n) and not same_val(g.get(n), fr.get(n)):
                        vars_.add((fid, n))
            for oid, ob in pre.objs.items():
                p = st.objs[oid]
                for n in set(ob.fields) | set(p.fields):
                    if p.fields.get(n) is not ob.fields.get(n) and not same_val(p.fields.get(n), ob.fields.get(n)):
                        fields.add((oid, n))
            for k in set(pre.ghost) | set(st.ghost):
                if st.ghost.get(k) is not pre.ghost.get(k):
                    ghosts.add(k)
        return cells, vars_, fields, ghosts

    def dry_run(self, st, run):
        """execute once without emitting obligations; returns outcomes (incl. raise states ignored)"""
        self.dry += 1
        self.sinks.append([])
        saved_ord = {k: dict(v) for k, v in self.loop_ord.items()}
        try:
            return run(st.copy())
        finally:
            self.sinks.pop()
            self.dry -= 1
            del saved_ord

    def havoc(self, st, mods, pre_outs):
        """replace everything in mods by fresh values; pre_outs give types for untyped containers"""
        cells, vars_, fields, ghosts = mods
        for cid in cells:
            c = st.heap[cid]
            ty = self.cell_type(st, c.c)
            if ty is None:
                for o in pre_outs:
                    w = o.st.heap.get(cid)
                    if w is not None:
                        ty = self.cell_type(o.st, w.c)
                        if ty is not None:
                            break
            if ty is None:
                raise Unsupported("container of unknown type modified in a loop")
            register(ty)
            st.heap[cid] = Cell(V(ty, fresh("h", ty)), c.epoch + 1, False)
        for fid, n in vars_:
            if n not in st.frames.get(fid, {}):
                continue
            st.frames[fid][n] = self.havoc_like(st, [st.frames[fid][n]] + [o.st.frames.get(fid, {}).get(n) for o in pre_outs], n, pre_outs)
        for oid, n in fields:
            ob = st.objs[oid]
            ob.fields[n] = self.havoc_like(st, [ob.fields.get(n)] + [o.st.objs[oid].fields.get(n) for o in pre_outs], n, pre_outs)
        for k in ghosts:
            v = st.ghost[k]
            st.ghost[k] = V(v.ty, fresh("g_" + k, v.ty))

    def cell_type(self, st, c):
        if isinstance(c, V):
            return c.ty
        if isinstance(c, PL) and c.items:
            t = self.type_of(st, c.items[0])
            if t is None:
                return None
            return TList(t) if c.kind == "List" else TSet(t)
        return None

    def havoc_like(self, st, vals, name, outs):
        vals = [v for v in vals if v is not None and v is not UNDEF]
        tys, none = [], False
        sts = [st] + [o.st for o in outs]
        for v in vals:
            if v is NONE:
                none = True
            elif isinstance(v, OptV):
                none = True
                tys.append(v.val)
            else:
                tys.append(v)
        if not tys:
            return NONE
        base = self.havoc_shape(st, tys, name, outs)
        if none:
            return OptV(z3.Bool(fresh_name("isnone_" + name)), base)
        return base

    def havoc_shape(self, st, tys, name, outs):
        v = tys[0]
        if isinstance(v, V):
            ts = {t.ty.key for t in tys if isinstance(t, V)}
            if ts == {"Int", "Real"} or ts == {"Bool", "Int"} or ts == {"Bool", "Int", "Real"}:
                ty = TReal if "Real" in ts else TInt
            elif len(ts) == 1 and all(isinstance(t, V) for t in tys):
                ty = v.ty
            else:
                raise Unsupported("variable %s changes type in a loop" % name)
            return V(ty, fresh(name, ty))
        if isinstance(v, PTup):
            if not all(isinstance(t, PTup) and len(t.items) == len(v.items) for t in tys):
                raise Unsupported("variable %s changes shape in a loop" % name)
            return PTup([self.havoc_shape(st, [t.items[i] for t in tys], name, outs) for i in range(len(v.items))], v.names, v.cls)
        if isinstance(v, Ref):
            # a variable re-bound to containers created inside the loop
            ty = None
            for o in [None] + list(outs):
                s = st if o is None else o.st
                for t in tys:
                    if isinstance(t, Ref) and t.cid in s.heap:
                        ty = ty or self.type_of(s, t)
            if ty is None:
                raise Unsupported("variable %s bound to containers of unknown type in a loop" % name)
            register(ty)
            return self.alloc(st, V(ty, fresh(name, ty)))
        if isinstance(v, ObjRef):
            h = getattr(self.target.ct, "havoc_obj", None)
            if h is not None:
                return h(self, st, v)
            raise Unsupported("object variable %s re-bound in a loop" % name)
        if all(same_val(v, t) for t in tys):
            return v
        raise Unsupported("variable %s of kind %s modified in a loop" % (name, type(v).__name__))

    def remap_none(self, st, mods):
        pass

    def inv_for(self, node, st, it, sc, body, orelse):
        if it.once and any(isinstance(x, (ast.Break, ast.Return, ast.Yield)) for x in ast.walk(node)):
            raise Unsupported("a one-shot iterator is possibly left half used", node)
        key = self.loop_key(node)
        self.loop_forms[key] = "for %s of %s" % (it.kind, it.ety)
        fr0 = LoopFrame(key, it, ety=it.ety)
        outer = list(self.loop_stack)
        # --- ghost setup
        if it.kind == "list":
            fr0.idx = z3.IntVal(0)
            fr0.seen = empty_set(it.ety)
            register(it.lty)
        elif it.kind == "range":
            fr0.idx = it.e[0]
        else:
            fr0.seen = empty_set(it.ety)
        fr0.entry = st
        self.loop_stack.append(fr0)
        try:
            # --- which things change: run the body once from a havocked element
            def one(s):
                s2, frx, v = self.pick(s, it, key, node, fr0)
                self.loop_stack[-1] = frx
                return body(s2, v)
            mods = (set(), set(), set(), set())
            base = st
            for _ in range(4):
                probe = st.copy()
                outs_d = []
                if any(mods):
                    self.havoc(probe, mods, prev)
                outs_d = self.dry_run(probe, one)
                new = self.modified(probe, outs_d)
                merged = tuple(a | b for a, b in zip(mods, new))
                prev = outs_d
                if merged == mods:
                    break
                mods = merged
                mods_outs = outs_d
                if not any(mods):
                    break
            self.loop_stack[-1] = fr0
            if set(it.deps) & mods[0]:
                raise Unsupported("container modified while it is iterated", node)
            enter = getattr(self.target.ct, "enter", {}).get(key)
            if enter:     # ghost lemmas where the loop starts: proved in turn, then used
                for lbl, f in enter(Ctx(self, st, self.target.old, self.target.args, frames=outer + [fr0], scope=sc, ct=self.target.ct)):
                    self.oblige(st, f, "%s: loop %s lemma '%s'" % (self.tname(), kstr(key), lbl), node, "ghost")
                    st.assume(f)
            # --- initially
            self.oblige_all(st, self.invariants(st, outer, fr0, sc), "%s: loop %s invariant '%%s' initially" % (self.tname(), kstr(key)), node, "inv-init")
            # --- arbitrary iteration
            h = st.copy()
            if any(mods):
                self.havoc(h, mods, prev)
            defined = {fid: set(fr) for fid, fr in h.frames.items()}
            st1, fr1, v = self.pick(h.copy(), it, key, node, fr0)
            self.loop_stack[-1] = fr1
            for lbl, f in self.invariants(st1, outer, fr1, sc):
                st1.assume(f)
            ncore = len(st1.facts)
            at_head = st1.copy()
            step = getattr(self.target.ct, "steps", {}).get(key)
            outs = body(st1, v) if self.feasible(st1) else []
            res = []
            for o in outs:
                if o.kind in ("next", "continue"):
                    fr2 = LoopFrame(key, it, ety=it.ety)
                    fr2.entry = st
                    fr2.elem = None
                    if it.kind == "list":
                        fr2.idx = fr1.idx + 1
                        fr2.seen = sadd(fr1.seen, fr1.elem)
                    elif it.kind == "range":
                        fr2.idx = fr1.idx + 1
                    else:
                        fr2.seen = sadd(fr1.seen, fr1.elem)
                    fr2.prev = fr1
                    self.loop_stack[-1] = fr2
                    nbody = len(o.st.facts)
                    lems = []
                    if step:
                        mk = lambda stx, frx: Ctx(self, stx, self.target.old, self.target.args, frames=outer + [frx], scope=sc, ct=self.target.ct)
                        lems = list(step(mk(o.st, fr2), mk(at_head, fr1)))
                    self.oblige_all(o.st, lems + self.invariants(o.st, outer, fr2, sc), "%s: loop %s invariant '%%s' preserved" % (self.tname(), kstr(key)), node, "inv-keep", core=(ncore, nbody))
                elif o.kind == "break":
                    res.append(o)
                else:
                    res.append(o)
            # --- exit
            ex = h
            frE = LoopFrame(key, it, ety=it.ety)
            frE.entry = st
            if it.kind == "list":
                n = L_len(it.e, it.lty)
                frE.idx, frE.seen = n, L_elems(it.e, it.lty)
                ex.assume(n >= 0)
            elif it.kind == "range":
                lo, hi = it.e
                frE.idx = z3.If(hi > lo, hi, lo)
            else:
                frE.seen = it.e
            frE.done = True
            self.loop_stack[-1] = frE
            for lbl, f in self.invariants(ex, outer, frE, sc):
                ex.assume(f)
        finally:
            self.loop_stack.pop()
        # variables first bound inside the loop are not reliably defined afterwards
        final = []
        if orelse:
            final += self.exec_block(list(orelse), ex, sc)
        else:
            final.append(Out("next", ex))
        for o in res:
            final.append(Out("next", o.st) if o.kind == "break" else o)
        return final

    def pick(self, st, it, key, node, fr0):
        """an arbitrary iteration: ghost state and the element"""
        fr = LoopFrame(key, it, ety=it.ety)
        fr.entry = fr0.entry
        if it.kind == "list":
            i = z3.Int(fresh_name("it"))
            n = L_len(it.e, it.lty)
            st.assume(z3.And(0 <= i, i < n))
            el = L_arr(it.e, it.lty)[i]
            seen = fresh("seen", TSet(it.ety))
            x = z3.Const(fresh_name("x"), sort(it.ety))
            st.assume(z3.ForAll([x], seen[x] == z3.And(L_elems(it.e, it.lty)[x], L_idx(it.e, x, it.lty) < i), patterns=[seen[x]]))
            st.assume(L_elems(it.e, it.lty)[el])
            st.assume(z3.Implies(L_dist(it.e, it.lty), z3.And(z3.Not(seen[el]), L_idx(it.e, el, it.lty) == i)))
            fr.idx, fr.seen, fr.elem = i, seen, el
            v = self.wrap(it.ety, el)
            return st, fr, v
        if it.kind == "range":
            lo, hi = it.e
            i = z3.Int(fresh_name("it"))
            st.assume(z3.And(lo <= i, i < hi))
            fr.idx, fr.elem = i, i
            return st, fr, V(TInt, i)
        seen = fresh("seen", TSet(it.ety))
        if it.ety.kind == "Tup" and not any(t.kind == "Tup" for t in it.ety.args):
            vs = [fresh("e", t) for t in it.ety.args]
            el = T_mk(vs, it.ety)
            val = PTup([V(t, x) for t, x in zip(it.ety.args, vs)], names=it.ety.names)
        else:
            el = fresh("e", it.ety)
            val = self.wrap(it.ety, el)
            if it.ety.mutable:
                val = self.alloc(st, val)
        st.assume(ssub(seen, it.e, it.ety))
        st.assume(it.e[el])
        if it.unique:
            st.assume(z3.Not(seen[el]))
        fr.seen, fr.elem = seen, el
        return st, fr, val

    def st_While(self, s, st, sc):
        key = self.loop_key(s)
        self.loop_forms[key] = "while"
        outer = list(self.loop_stack)
        fr = LoopFrame(key, None)
        fr.entry = st
        self.loop_stack.append(fr)
        res = []
        try:
            def one(x):
                outs = []
                for s1, c in self.ev_cond(s.test, x, sc):
                    if z3.is_false(z3.simplify(c)):
                        continue
                    a = s1.assume(c)
                    outs += self.exec_block(s.body, a, sc)
                return outs
            mods, prev = (set(), set(), set(), set()), []
            for _ in range(4):
                probe = st.copy()
                if any(mods):
                    self.havoc(probe, mods, prev)
                prev = self.dry_run(probe, one)
                new = self.modified(probe, prev)
                merged = tuple(a | b for a, b in zip(mods, new))
                if merged == mods:
                    break
                mods = merged
            self.oblige_all(st, self.invariants(st, outer, fr, sc), "%s: loop %s invariant '%%s' initially" % (self.tname(), kstr(key)), s, "inv-init")
            h = st.copy()
            if any(mods):
                self.havoc(h, mods, prev)
            for lbl, f in self.invariants(h, outer, fr, sc):
                h.assume(f)
            dec = self.target.ct.decreases.get(key)
            exits = []
            for s1, c in self.ev_cond(s.test, h.copy(), sc):
                cs = z3.simplify(c)
                if not z3.is_true(cs):
                    e = s1.copy().assume(z3.Not(c))
                    if self.feasible(e):
                        exits.append(e)
                if z3.is_false(cs):
                    continue
                b = s1.assume(c)
                if not self.feasible(b):
                    continue
                at_head = b.copy()
                mk = lambda stx: Ctx(self, stx, self.target.old, self.target.args, frames=outer + [fr], scope=sc, ct=self.target.ct)
                fr.head = at_head
                d0 = dec(mk(at_head)) if dec else None
                for o in self.exec_block(s.body, b, sc):
                    if o.kind in ("next", "continue"):
                        self.oblige_all(o.st, self.invariants(o.st, outer, fr, sc), "%s: loop %s invariant '%%s' preserved" % (self.tname(), kstr(key)), s, "inv-keep")
                        if dec:
                            d1 = dec(mk(o.st))
                            lem = getattr(self.target.ct, "progress", {}).get(key)
                            lems = list(lem(mk(o.st), mk(at_head))) if lem else []
                            self.oblige_all(o.st, lems + [("variant decreases", lex_less(d1, d0))], "%s: loop %s %%s" % (self.tname(), kstr(key)), s, "variant")
                            if lems and not self.dry:
                                self.obls[-1].tail = len(lems)
                    elif o.kind == "break":
                        res.append(Out("next", o.st))
                    else:
                        res.append(o)
        finally:
            self.loop_stack.pop()
        for e in exits:
            res += self.exec_block(s.orelse, e, sc) if s.orelse else [Out("next", e)]
        return res


def lex_less(a, b):
    """lexicographic decrease with every component bounded below by 0"""
    alts = []
    for i in range(len(a)):
        alts.append(z3.And(*([a[j] == b[j] for j in range(i)] + [a[i] < b[i], b[i] >= 0])))
    # earlier components may also stay equal only if non-negative is not needed
    return z3.Or(*alts)


def kstr(key):
    return ".".join(str(k + 1) for k in key)


class _Undef:
    pass


UNDEF = _Undef()


def same_val(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, V) and isinstance(b, V):
        return a.ty == b.ty and a.e.eq(b.e)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cid == b.cid and len(a.path) == len(b.path) and all(x.eq(y) for x, y in zip(a.path, b.path)) and a.epoch == b.epoch
    if isinstance(a, ObjRef) and isinstance(b, ObjRef):
        return a.oid == b.oid
    if isinstance(a, PTup) and isinstance(b, PTup):
        return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, PStr) and isinstance(b, PStr):
        return len(a.parts) == len(b.parts) and all(x == y if isinstance(x, str) or isinstance(y, str) else same_val(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a.info.node is b.info.node and a.fid is b.fid and a.bound is b.bound
    return False


def same_cell(a, b):
    if a.c is b.c and a.epoch == b.epoch and a.escaped == b.escaped:
        return True
    return isinstance(a.c, V) and isinstance(b.c, V) and a.c.e.eq(b.c.e) and a.epoch == b.epoch and a.escaped == b.escaped


def fresh_counter():
    from . import theory
    return theory._fresh[0]


def free_consts(e):
    return fresh_consts_after(e, None)


def fresh_consts_after(e, mark):
    seen, stack, out = set(), [e], []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (mark is None or uses_fresh_after(x, mark)):
            out.append(x)
        if z3.is_app(x):
            stack.extend(x.children())
    return out


def uses_fresh_after(e, mark):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if "!" in n:
                try:
                    if int(n.rsplit("!", 1)[1]) > mark:
                        return True
                except ValueError:
                    pass
        if z3.is_app(x):
            stack.extend(x.children())
    return False


def occurs(v, e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            stack.extend(x.children())
    return False


from .builtins_model import BUILTINS, BUILTIN_NAMES, SKIP_CALLS, CONSTS  # noqa: E402
from . import numpy_model  # noqa: E402
