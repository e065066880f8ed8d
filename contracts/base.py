"""Shared vocabulary of the contracts: the view of a graph object."""
import z3
from pyver.theory import *
from pyver.values import *
from pyver.engine import Contract, Ctx, conj, State

TAIL, NULL, ARROW, CIRCLE = -1, 0, 1, 2
TAdj1 = TDict(TNode, TInt)
TAdj = TDict(TNode, TAdj1)
TNL = TList(TNode)
TNS = TSet(TNode)
TEdge = TTup(TNode, TNode, TInt, TInt, names=["node_u", "node_v", "mark_u", "mark_v"])
TPair = TTup(TNode, TNode)
for _t in (TAdj, TNL, TNS, TEdge, TPair, TList(TEdge), TList(TNode), TSet(TEdge)):
    register(_t)
Node = sort(TNode)

GRAPH_FIELDS = {"node_set": TNS, "node_list": TNL, "_adj": TAdj}
CLASSES = {
    "Graph": dict(GRAPH_FIELDS, __class__="cdmir.graph.graph.Graph"),
    "DiGraph": dict(GRAPH_FIELDS, __class__="cdmir.graph.digraph.DiGraph"),
    "PDAG": dict(GRAPH_FIELDS, __class__="cdmir.graph.pdag.PDAG"),
}
REG = {}


def contract(qual, **attrs):
    """class decorator: registers an instance of the contract class under qual"""
    def deco(cls):
        inst = cls(qual)
        for k, v in attrs.items():
            setattr(inst, k, v)
        REG[qual] = inst
        return cls
    return deco


def nv(*names):
    return [z3.Const(fresh_name(n), Node) for n in names]


def FA(vs, body, pats=None):
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)


class GV:
    """a graph object in a state"""

    def __init__(self, c, obj, st=None):
        st = st or c.st
        self.c, self.st = c, st
        self.ref = c.args[obj] if isinstance(obj, str) else obj
        o = st.objs[self.ref.oid]
        self.cls = o.cls
        eng = c.eng
        self.N = eng.to_z3(st, o.fields["node_set"], TNS)
        self.L = eng.to_z3(st, o.fields["node_list"], TNL)
        self.adj = eng.to_z3(st, o.fields["_adj"], TAdj)

    def nodes(self):
        return L_elems(self.L, TNL)

    def row(self, u):
        return z3.Select(D_val(self.adj, TAdj), u)

    def rec(self, u, v):
        """v is recorded in u's row"""
        return D_dom(self.row(u), TAdj1)[v]

    def conn(self, u, v):
        return z3.And(self.N[u], self.rec(u, v))

    def mk(self, u, v):
        """mark at v's end of the edge u-v"""
        return z3.Select(D_val(self.row(u), TAdj1), v)

    def arrow(self, u, v):
        return z3.And(self.conn(u, v), self.mk(u, v) == ARROW)

    def tail(self, u, v):
        return z3.And(self.conn(u, v), self.mk(u, v) == TAIL)

    def dir(self, u, v):
        return z3.And(self.conn(u, v), self.mk(u, v) == ARROW, self.mk(v, u) == TAIL)

    def und(self, u, v):
        return z3.And(self.conn(u, v), self.mk(u, v) == TAIL, self.mk(v, u) == TAIL)

    def idx(self, u):
        return L_idx(self.L, u, TNL)

    def inv(self):
        u, v = nv("iu", "iv")
        out = [("node list and node set agree", z3.And(L_elems(self.L, TNL) == self.N, L_dist(self.L, TNL))),
               ("one adjacency row per node", D_dom(self.adj, TAdj) == self.N),
               ("edges recorded at both ends, ends are distinct nodes",
                FA([u, v], z3.Implies(z3.And(self.N[u], self.rec(u, v)), z3.And(self.N[v], self.rec(v, u), u != v)), [self.rec(u, v)]))]
        if self.cls == "DiGraph":
            out.append(("every edge has one tail and one arrow",
                        FA([u, v], z3.Implies(z3.And(self.N[u], self.rec(u, v)),
                           z3.Or(z3.And(self.mk(u, v) == ARROW, self.mk(v, u) == TAIL), z3.And(self.mk(u, v) == TAIL, self.mk(v, u) == ARROW))), [self.rec(u, v)])))
        if self.cls == "PDAG":
            out.append(("every mark is a tail or an arrow",
                        FA([u, v], z3.Implies(z3.And(self.N[u], self.rec(u, v)), z3.Or(self.mk(u, v) == ARROW, self.mk(u, v) == TAIL)), [self.rec(u, v)])))
        return out

    def same_nodes(self, o):
        return z3.And(self.N == o.N, self.seq_eq(o))

    def seq_eq(self, o):
        i = z3.Int(fresh_name("si"))
        return z3.And(L_len(self.L, TNL) == L_len(o.L, TNL),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L_len(self.L, TNL)), L_arr(self.L, TNL)[i] == L_arr(o.L, TNL)[i])))

    def fields(self):
        return [(self.ref, "node_set"), (self.ref, "node_list"), (self.ref, "_adj")]


def inv_req(c, name="self"):
    return GV(c, name).inv()


def T(c):
    return z3.BoolVal(True)
