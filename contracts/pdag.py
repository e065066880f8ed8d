"""Contracts of cdmir.graph.pdag.PDAG: collider rule, propagation rules."""
from contracts.base import *
from contracts.graph import Edit, Query, unchanged_nodes
from contracts.digraph import def_set, RANK

P = "cdmir.graph.pdag.PDAG."
TPS = register(TSet(TPair))
TSep = register(TDict(TPair, TNS))

# an arbitrary directed graph D whose arrows follow RANK (so: an arbitrary directed acyclic graph)
DAG = z3.Function("D", Node, Node, z3.BoolSort())


def pr(a, b):
    return T_mk([a, b], TPair)


def agrees(g):
    """D is acyclic, has g's adjacencies, g's directed edges, and no unshielded collider that g does not show"""
    a, b, w = nv("a", "b", "w")
    return z3.And(FA([a, b], z3.Implies(DAG(a, b), z3.And(RANK(a) < RANK(b), g.conn(a, b), g.conn(b, a))), [DAG(a, b)]),
                  FA([a, b], z3.Implies(g.conn(a, b), z3.Or(DAG(a, b), DAG(b, a))), [g.rec(a, b)]),
                  FA([a, b], z3.Implies(g.dir(a, b), DAG(a, b)), [g.rec(a, b)]),
                  FA([a, b, w], z3.Implies(z3.And(DAG(a, w), DAG(b, w), a != b, z3.Not(g.conn(a, b))), z3.And(g.dir(a, w), g.dir(b, w))), [z3.MultiPattern(DAG(a, w), DAG(b, w))]))


def same_pairs(g, o):
    a, b = nv("a", "b")
    return FA([a, b], z3.Implies(o.N[a], g.rec(a, b) == o.rec(a, b)), [g.rec(a, b), o.rec(a, b)])


def same_marks(g, o):
    a, b = nv("a", "b")
    return FA([a, b], z3.Implies(o.conn(a, b), g.mk(a, b) == o.mk(a, b)), [g.rec(a, b)])


# patterns: edge a - b gets directed a -> b.  con/dr/un: adjacency, directed, undirected
def pat1(con, dr, un, a, b, w):
    return z3.And(w != a, w != b, dr(w, a), z3.Not(con(w, b)), un(a, b))


def pat2(con, dr, un, a, b, w):
    return z3.And(w != a, w != b, dr(a, w), dr(w, b), un(a, b))


def pat3(con, dr, un, a, b, v, x):
    return z3.And(v != x, un(a, v), un(a, x), dr(v, b), dr(x, b), z3.Not(con(v, x)), un(a, b))


def pat4(con, dr, un, a, b, u, v):
    """u -> v -> b, u - a - b, v adjacent to a, u not adjacent to b: a - b becomes a -> b"""
    return z3.And(u != v, u != a, u != b, v != a, v != b, dr(u, v), dr(v, b), un(u, a), un(a, b), con(v, a), z3.Not(con(u, b)))


def trig(vs, *terms):
    """a multi-pattern of those terms that mention the bound variables"""
    def mentions(t, v):
        return t.eq(v) or any(mentions(x, v) for x in t.children())
    ts = [t for t in terms if any(mentions(t, v) for v in vs)]
    return [z3.MultiPattern(*ts) if len(ts) > 1 else ts[0]]


TRIG = {1: lambda g, a, b, w: (g.rec(w, a), g.rec(a, b)),
        2: lambda g, a, b, w: (g.rec(a, w), g.rec(w, b)),
        3: lambda g, a, b, v, x: (g.rec(v, b), g.rec(x, b), g.rec(a, b)),
        4: lambda g, a, b, u, v: (g.rec(u, v), g.rec(v, b), g.rec(a, b))}


class Rule(Edit):
    receivers = ("PDAG",)
    params = {"verbose": TBool}
    mods = ("_adj",)
    result_ty = TBool
    pat, arity = None, 0

    def applies(self, g, a, b, ws):
        return type(self).pat(g.conn, g.dir, g.und, a, b, *ws)

    def frame(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        a, b = nv("a", "b")
        ws = nv(*"vx"[:self.arity])
        just = z3.Exists(ws, type(self).pat(g.conn, g.dir, o.und, a, b, *ws), patterns=trig(ws, *TRIG[self.no](o, a, b, *ws)))
        out = self.post_inv(c) + unchanged_nodes(g, o) + [
            ("adjacencies unchanged", same_pairs(g, o)),
            ("edges that were not undirected keep their marks, undirected ones stay or get one direction", FA([a, b], z3.Implies(o.conn(a, b),
             z3.If(o.und(a, b), z3.Or(g.und(a, b), g.dir(a, b), g.dir(b, a)), g.mk(a, b) == o.mk(a, b))), [g.rec(a, b)]))]
        out.append(("every new direction has the rule's pattern", FA([a, b], z3.Implies(z3.And(o.und(a, b), g.dir(a, b)), just), [g.rec(a, b)])))
        return out + [("a directed acyclic graph that agreed before still agrees", z3.Implies(agrees(o), agrees(g)))]

    def report(self, c, changed):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        return [("a change is reported exactly when a mark changed", changed == z3.Not(same_marks(g, o)))]

    def ensures(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        r = c.val(c.result, TBool)
        a, b = nv("a", "b")
        ws = nv(*"vx"[:self.arity])
        return self.frame(c) + self.report(c, r) + [
            ("without a change the pattern occurs nowhere", z3.Implies(z3.Not(r), FA([a, b] + ws, z3.Not(self.applies(o, a, b, ws)), trig([a, b] + ws, *TRIG[self.no](o, a, b, *ws)))))]

    # loops: an outer loop over ordered pairs of nodes, then one loop per further node
    depth = 2
    place = None      # (pair first, pair second, inner nodes) -> (a, b, further nodes)

    def edge_at(self, fixed, x, y):
        """equations saying that x -> y is an edge directed at a position that starts with the given nodes"""
        rest = nv(*["any"] * (self.depth + 1 - len(fixed)))
        a, b, _ = type(self).place(*(list(fixed) + rest))
        return [(p, q) for p, q in ((a, x), (b, y)) if any(p.eq(f) for f in fixed)]

    @property
    def loops(self):
        def at(level):
            def f(c):
                o = GV(c, "self", c.old)
                ch = c.lz("changed", TBool)
                out = self.frame(c) + self.report(c, ch)
                if level:
                    # since this loop was entered: only edges that the current outer nodes allow, each only in the rule's direction
                    g, e = GV(c, "self"), GV(c, "self", c.loop.entry)
                    fixed = [T_get(c.frames[-(level + 1)].elem, i, TPair) for i in (0, 1)] + [fr.elem for fr in c.frames[-level:-1]]
                    x, y = nv("x", "y")
                    may = lambda x, y: z3.And(*[p == q for p, q in self.edge_at(fixed, x, y)])
                    out.append(("inside, only edges at the current nodes change", z3.And(same_pairs(g, e), FA([x, y], z3.Implies(e.conn(x, y), z3.If(e.und(x, y),
                        z3.Or(g.und(x, y), z3.And(may(x, y), g.dir(x, y)), z3.And(may(y, x), g.dir(y, x))), g.mk(x, y) == e.mk(x, y))), [g.rec(x, y)]))))
                vs = nv("p", "q", *"vx"[:self.depth - 1])
                frs = c.frames[-(level + 1):]
                # what is known free of the pattern (in the graph at the start): pairs visited, then inner nodes visited for the current pair
                # level k: all positions before k are the current ones, position k has been visited, later ones are arbitrary
                pats = []
                for k in range(level + 1):
                    cur = []
                    if k > 0:
                        cur = [T_get(frs[0].elem, 0, TPair), T_get(frs[0].elem, 1, TPair)] + [frs[i].elem for i in range(1, k)]
                    free = vs[len(cur):]
                    pos = cur + free
                    seen = frs[k].seen[pr(pos[0], pos[1])] if k == 0 else frs[k].seen[pos[k + 1]]
                    a, b, ws = type(self).place(*pos)
                    vis = z3.And(seen, *[o.N[x] for x in free])
                    pats.append(("no pattern at what was visited (level %d)" % k, z3.Implies(z3.Not(ch), FA(free, z3.Implies(vis, z3.Not(self.applies(o, a, b, ws))), trig(free, *TRIG[self.no](o, a, b, *ws))))))
                return out + pats
            return f
        return {tuple([0] * (k + 1)): at(k) for k in range(self.depth)}


    @property
    def steps(self):
        def f(c, ch):
            g, h = GV(c, "self"), GV(ch, "self")
            frs = ch.frames[-self.depth:]
            pos = [T_get(frs[0].elem, 0, TPair), T_get(frs[0].elem, 1, TPair)] + [fr.elem for fr in frs[1:]]
            a, b, ws = type(self).place(*pos)
            x, y = nv("x", "y")
            was, now = ch.lz("changed", TBool), c.lz("changed", TBool)
            p = self.applies(h, a, b, ws)
            return [("lemma: nodes and adjacencies kept by the step", z3.And(g.N == h.N, g.seq_eq(h), same_pairs(g, h))),
                    ("lemma: where the pattern was, the edge is now directed", z3.Implies(p, z3.And(now, g.dir(a, b)))),
                    ("lemma: and only that edge", z3.Implies(p, FA([x, y], z3.Implies(z3.And(h.conn(x, y), z3.Not(z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a)))), g.mk(x, y) == h.mk(x, y)), [g.rec(x, y)]))),
                    ("lemma: elsewhere nothing happens", z3.Implies(z3.Not(p), z3.And(now == was, same_marks(g, h))))]
        return {tuple([0] * self.depth): f}


contract(P + "rule1")(type("rule1", (Rule,), {"no": 1, "pat": staticmethod(pat1), "arity": 1, "depth": 2, "place": staticmethod(lambda u, v, w: (v, w, [u]))}))
contract(P + "rule2")(type("rule2", (Rule,), {"no": 2, "pat": staticmethod(pat2), "arity": 1, "depth": 2, "place": staticmethod(lambda u, v, w: (u, w, [v]))}))
contract(P + "rule3")(type("rule3", (Rule,), {"no": 3, "pat": staticmethod(pat3), "arity": 2, "depth": 3, "place": staticmethod(lambda u, w, v, x: (u, w, [v, x]))}))
contract(P + "rule4")(type("rule4", (Rule,), {"no": 4, "pat": staticmethod(pat4), "arity": 2, "depth": 3, "place": staticmethod(lambda u, w, v, x: (x, w, [u, v]))}))


@contract(P + "create_complete_undirected_graph")
class _(Edit):
    receivers = ("PDAG",)
    mods = ("_adj",)

    def requires(self, c):
        g = GV(c, "self")
        a, b = nv("a", "b")
        return inv_req(c) + [("no edges yet", FA([a, b], z3.Not(g.conn(a, b)), [g.rec(a, b)]))]

    def ensures(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        a, b = nv("a", "b")
        return self.post_inv(c) + unchanged_nodes(g, o) + [
            ("every two nodes are joined by an undirected edge", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b], a != b), g.und(a, b)), [g.rec(a, b), z3.MultiPattern(g.N[a], g.N[b])])),
            ("and nothing else", FA([a, b], z3.Implies(g.conn(a, b), z3.And(g.und(a, b), a != b)), [g.rec(a, b)]))]

    def loops_(self):
        def f(c):
            g, o = GV(c, "self"), GV(c, "self", c.old)
            a, b = nv("a", "b")
            return self.post_inv(c) + unchanged_nodes(g, o) + [
                ("pairs visited are joined", FA([a, b], z3.Implies(o.N[a], g.rec(a, b) == z3.Or(c.loop.seen[pr(a, b)], c.loop.seen[pr(b, a)])), [g.rec(a, b)])),
                ("by undirected edges", FA([a, b], z3.Implies(g.conn(a, b), g.und(a, b)), [g.rec(a, b)]))]
        return {(0,): f}
    loops = property(loops_)


# ------------------------------------------------------------------ full propagation
@contract(P + "orient_by_meek_rules")
class _(Edit):
    receivers = ("PDAG",)
    params = {"verbose": TBool}
    mods = ("_adj",)

    def kept(self, c):
        g, o = GV(c, "self"), GV(c, "self", c.old)
        a, b = nv("a", "b")
        return self.post_inv(c) + unchanged_nodes(g, o) + [
            ("adjacencies unchanged", same_pairs(g, o)),
            ("edges that were not undirected keep their marks, undirected ones stay or get one direction", FA([a, b], z3.Implies(o.conn(a, b),
             z3.If(o.und(a, b), z3.Or(g.und(a, b), g.dir(a, b), g.dir(b, a)), g.mk(a, b) == o.mk(a, b))), [g.rec(a, b)])),
            ("a directed acyclic graph that agreed before still agrees", z3.Implies(agrees(o), agrees(g)))]

    def nowhere(self, c, no):
        g = GV(c, "self")
        ct = REG[P + "rule%d" % no]
        a, b = nv("a", "b")
        ws = nv(*"vx"[:ct.arity])
        return FA([a, b] + ws, z3.Not(ct.applies(g, a, b, ws)), trig([a, b] + ws, *TRIG[no](g, a, b, *ws)))

    def ensures(self, c):
        return self.kept(c) + [("the pattern of rule %d occurs nowhere" % i, self.nowhere(c, i)) for i in (1, 2, 3, 4)]

    def loops_(self):
        def f(c):
            ch = c.lz("changed", TBool)
            return self.kept(c) + [("after a round without a change the pattern of rule %d occurs nowhere" % i, z3.Implies(z3.Not(ch), self.nowhere(c, i))) for i in (1, 2, 3, 4)]
        return {(0,): f}
    loops = property(loops_)

    def undirected(self, c):
        g = GV(c, "self")
        cache = c.eng.__dict__.setdefault("undsets", {})
        key = (g.adj.get_id(), g.N.get_id())
        if key not in cache:
            S = fresh("undirected", TPS)
            a, b = nv("a", "b")
            cache[key] = (S, FA([a, b], S[pr(a, b)] == g.und(a, b), [S[pr(a, b)], g.rec(a, b)]), g.adj, g.N)
        c.st.assume(cache[key][1])
        return cache[key][0]

    def decreases_(self):
        return {(0,): lambda c: [2 * card(self.undirected(c), TPair) + z3.If(c.lz("changed", TBool), 1, 0)]}
    decreases = property(decreases_)

    def progress_(self):
        def f(c, h):
            U1, U0 = self.undirected(c), self.undirected(h)
            c.st.assume(h.st.facts[-1])
            g, o = GV(c, "self"), GV(h, "self")
            ch = c.lz("changed", TBool)
            return [("lemma: no edge becomes undirected", ssub(U1, U0, TPair)),
                    ("lemma: a change directs some edge", z3.Implies(ch, z3.Not(same_marks(g, o)))),
                    ("lemma: so fewer are undirected", z3.Implies(ch, U1 != U0)),
                    ("lemma: counted", z3.And(card(U0, TPair) >= 0, card(U1, TPair) >= 0, card(U1, TPair) <= card(U0, TPair), z3.Implies(ch, card(U1, TPair) < card(U0, TPair)))),
                    ("lemma: flag", h.lz("changed", TBool))]
        return {(0,): f}
    progress = property(progress_)


# ------------------------------------------------------------------ collider rule
def bad(c, o, sep):
    """BAD(x, y, w): x and y are not adjacent, both adjacent to w, and w is not in their separator"""
    cache = c.eng.__dict__.setdefault("bads", {})
    key = (o.adj.get_id(), sep.get_id())
    if key not in cache:
        B = z3.Function(fresh_name("BAD"), Node, Node, Node, z3.BoolSort())
        x, y, w = nv("x", "y", "w")
        s = z3.Select(D_val(sep, TSep), z3.If(o.idx(x) < o.idx(y), pr(x, y), pr(y, x)))
        cache[key] = (B, FA([x, y, w], B(x, y, w) == z3.And(o.N[x], o.N[y], o.N[w], x != y, z3.Not(o.conn(x, y)), o.conn(x, w), o.conn(y, w), z3.Not(s[w])), [B(x, y, w)]), o.adj, sep)
    c.st.assume(cache[key][1])
    return cache[key][0]


def legs(c, B, seen=None):
    """pairs (x, w) such that BAD(x, y, w) for some y (with {x, y} among the pairs seen)"""
    S = fresh("legs", TPS)
    x, w, y = nv("x", "w", "y")
    sn = z3.BoolVal(True) if seen is None else z3.Or(seen[pr(x, y)], seen[pr(y, x)])
    c.st.assume(FA([x, w], S[pr(x, w)] == z3.Exists([y], z3.And(B(x, y, w), sn), patterns=[B(x, y, w)]), [S[pr(x, w)]]))
    return S


@contract(P + "rule0")
class _(Edit):
    receivers = ("PDAG",)
    params = {"sep_set": TSep, "verbose": TBool}
    mods = ("_adj",)

    def sep(self, c):
        return c.val(c.args["sep_set"], TSep, c.old)

    def requires(self, c):
        g = GV(c, "self")
        a, b = nv("a", "b")
        s = self.sep(c)
        return inv_req(c) + [("a separator is recorded for every two non-adjacent nodes", FA([a, b], z3.Implies(z3.And(g.N[a], g.N[b], g.idx(a) < g.idx(b), z3.Not(g.conn(a, b))),
                              D_dom(s, TSep)[pr(a, b)]), [D_dom(s, TSep)[pr(a, b)]]))]

    def state(self, c, leg):
        """what holds when leg(x, w) are the legs directed so far"""
        g, o = GV(c, "self"), GV(c, "self", c.old)
        x, w = nv("x", "w")
        return self.post_inv(c) + unchanged_nodes(g, o) + [
            ("adjacencies unchanged", same_pairs(g, o)),
            ("edges that are no legs are unchanged", FA([x, w], z3.Implies(z3.And(o.conn(x, w), z3.Not(leg(x, w)), z3.Not(leg(w, x))), g.mk(x, w) == o.mk(x, w)), [g.rec(x, w)])),
            ("legs are directed into the middle node", FA([x, w], z3.Implies(z3.And(leg(x, w), z3.Not(leg(w, x))), g.dir(x, w)), [g.rec(x, w)])),
            ("legs of two colliders pointing at each other get one direction", FA([x, w], z3.Implies(z3.And(leg(x, w), leg(w, x)), z3.Or(g.dir(x, w), g.dir(w, x))), [g.rec(x, w)]))]

    def ensures(self, c):
        S = legs(c, bad(c, GV(c, "self", c.old), self.sep(c)))
        c.eng.rule0_legs = (bad(c, GV(c, "self", c.old), self.sep(c)), S)
        return self.state(c, lambda x, w: S[pr(x, w)])

    def cur(self, c, i):
        return [T_get(c.frames[i].elem, k, TPair) for k in (0, 1)]

    def legs_at(self, c):
        """legs of the pairs seen (and, inside, of the current pair for the middle nodes seen); cached per loop state"""
        o = GV(c, "self", c.old)
        B = bad(c, o, self.sep(c))
        fr = c.frames[0]
        cache = c.eng.__dict__.setdefault("legsets", {})
        key = fr.seen.get_id()
        if key not in cache:
            n = len(c.st.facts)
            S = legs(c, B, fr.seen)
            cache[key] = (S, c.st.facts[-1], fr.seen)
        S, ax, _ = cache[key]
        c.st.assume(ax)
        return B, S

    @property
    def loops(self):
        def outer(c):
            B, S = self.legs_at(c)
            fr = c.frames[0]
            out = []
            if getattr(fr, "prev", None) is not None:      # one more pair was visited
                u, v = [T_get(fr.prev.elem, k, TPair) for k in (0, 1)]
                P0, ax, _ = c.eng.legsets[fr.prev.seen.get_id()]
                x, w = nv("x", "w")
                out.append(("lemma: the new legs are those of the pair", FA([x, w], S[pr(x, w)] == z3.Or(P0[pr(x, w)], z3.And(x == u, B(u, v, w)), z3.And(x == v, B(v, u, w))), [S[pr(x, w)], P0[pr(x, w)]])))
            return out + self.state(c, lambda x, w: S[pr(x, w)])

        def inner(c):
            B, S = self.legs_at(c)
            u, v = self.cur(c, 0)
            seen = c.loop.seen
            return self.state(c, lambda x, w: z3.Or(S[pr(x, w)], z3.And(z3.Or(x == u, x == v), seen[w], B(u, v, w))))
        return {(0,): outer, (0, 0): inner}

    @property
    def steps(self):
        def f(c, ch):
            g, h, o = GV(c, "self"), GV(ch, "self"), GV(c, "self", c.old)
            B = bad(c, o, self.sep(c))
            u, v = self.cur(ch, 0)
            w = ch.frames[-1].elem
            x, y = nv("x", "y")
            mine = lambda x, y: z3.And(y == w, z3.Or(x == u, x == v))
            return [("lemma: nodes and adjacencies kept by the step", z3.And(g.N == h.N, g.seq_eq(h), same_pairs(g, h))),
                    ("lemma: both legs are directed into the node where the rule applies", z3.Implies(B(u, v, w), z3.And(g.dir(u, w), g.dir(v, w)))),
                    ("lemma: and nothing else", z3.Implies(B(u, v, w), FA([x, y], z3.Implies(z3.And(h.conn(x, y), z3.Not(mine(x, y)), z3.Not(mine(y, x))), g.mk(x, y) == h.mk(x, y)), [g.rec(x, y)]))),
                    ("lemma: elsewhere nothing happens", z3.Implies(z3.Not(B(u, v, w)), same_marks(g, h)))]
        return {(0, 0): f}
