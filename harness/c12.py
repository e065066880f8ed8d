"""PC with random symmetric tests and d-separation tests on 1 to 6 variables, fed arrays and frames (names given, taken from the frame or numbered), with both library searches and a recording search of the user's own, levels set at construction and later, refitting the same object; the result is compared with the search run separately on an equal test. Non-trivial: at least three variables and an edge."""
from harness.common import *
from harness.c08 import applicable
import numpy as np
import pandas as pd
from cdmir.discovery.constraint.pc import PC
from cdmir.discovery.constraint import adjacency_search as AS
from cdmir.utils.independence.basic_independence import ConditionalIndependentTest

BOUND = "at most 6 variables"
nontrivial = lambda c: c["n"] >= 3


class RandomTest(ConditionalIndependentTest):
    def __init__(self, data, var_names=None, spec=None, extra=None):
        super().__init__(data, var_names)
        self.spec, self.extra = spec, extra

    def cal_stats(self, x_id, y_id, z_ids=None):
        key = (frozenset((x_id, y_id)), frozenset(z_ids or ()))
        c = self.spec
        if c["kind"] == "dsep":
            return 1.0 if y_id not in active_reach(c["n"], [tuple(a) for a in c["arcs"]], x_id, sorted(key[1])) else 0.0, None
        r = rng_of(c["seed"], sorted(key[0]), sorted(key[1]))
        return (r.choice((c["alpha"], c["alpha"] + .01, .99)) if r.random() < c["dens"] else r.choice((0.0, c["alpha"] - .001, c["alpha"] / 2))), None


def cases(rng, tier):
    for i in range(500 if tier == "quick" else 8000):
        n = rng.choice((1, 2, 3, 4, 4, 5, 6))
        c = {"n": n, "alpha": rng.choice((.01, .05, .3, .6)), "input": rng.choice(("array", "frame", "frame-int")), "names": rng.choice((None, 0, 1, 3)), "search": rng.choice(("slow", "fast", "own", "default")),
             "later": rng.random() < .3, "again": rng.random() < .3, "verbose": rng.random() < .1, "keyword": rng.random() < .3}
        if rng.random() < .4:
            c.update(kind="dsep", arcs=rand_dag(rng, n, rng.choice((.3, .5, .8))))
        else:
            c.update(kind="random", seed=rng.randrange(10 ** 9), dens=rng.choice((.03, .1, .25, .5)))
        yield c


def check(case):
    n = case["n"]
    cols = ["c%d" % i for i in range(n)][::-1]
    a = np.arange(3 * n, dtype=float).reshape(3, n)
    data = a if case["input"] == "array" else pd.DataFrame(a, columns=cols if case["input"] == "frame" else None)
    given = None if case["names"] is None else list(names(case["names"], n))
    want = given if given is not None else cols if case["input"] == "frame" else list(range(n))
    log = []
    base = {"slow": AS.adjacency_search, "fast": AS.fast_adjacency_search, "own": AS.fast_adjacency_search, "default": AS.adjacency_search}[case["search"]]

    def own(*args, **kw):
        log.append((args, dict(kw)))
        r = base(*args, **kw)
        log.append(snap(r[0]))
        log.append(dict(r[1]))
        return r
    used = {"slow": AS.adjacency_search, "fast": AS.fast_adjacency_search}.get(case["search"], own)
    start = .5 if case["later"] else case["alpha"]
    pc = PC(start, verbose=case["verbose"]) if case["search"] == "default" else PC(alpha=start, adjacency_search_method=used, verbose=case["verbose"])
    if case["later"]:
        pc.set_alpha(case["alpha"])
    need(pc.get_alpha() == case["alpha"], "the configured level is not reported")
    runs = []
    for k in range(2 if case["again"] else 1):
        del log[:]
        spec = dict(case, seed=case.get("seed", 0) + k)
        before = data.copy()
        if case["keyword"]:
            pc.fit(data=data, var_names=given, indep_cls=RandomTest, spec=spec, extra="e")
        else:
            pc.fit(data, given, RandomTest, spec, extra="e")
        need(np.array_equal(np.asarray(before), np.asarray(data)), "the data were modified")
        t = RandomTest(data, given, spec)
        g, sep = base(t, t.var_names, case["alpha"])
        got, cg = snap(pc.skeleton), snap(pc.causal_graph)
        need(list(pc.indep_test.var_names) == want, lambda: "the test got the names %r, expected %r" % (pc.indep_test.var_names, want))
        need(pc.indep_test.spec == spec and pc.indep_test.extra == "e", "further arguments did not reach the test")
        need(got[0] == want, lambda: "the skeleton's variables are %r, expected %r" % (got[0], want))
        need(got == snap(g), lambda: "skeleton %r, the search gives %r" % (got, snap(g)))
        need(pc.sep_set == sep, lambda: "separators %r, the search gives %r" % (pc.sep_set, sep))
        if case["search"] == "own":
            need(len(log) == 3, "the search was not run exactly once")
            args, kw = log[0]
            full = dict(zip(("test", "names", "alpha"), args), **{{"var_names": "names", "indep_test": "test", "independence": "test"}.get(q, q): v for q, v in kw.items()})
            need(full["test"] is pc.indep_test and list(full["names"]) == want and full["alpha"] == case["alpha"], lambda: "the search was run on %r" % (full,))
            need(got == log[1], lambda: "skeleton %r, the search returned %r" % (got, log[1]))
        need(cg[0] == got[0], "the causal graph has other nodes than the skeleton")
        need({u: set(r) for u, r in cg[2].items()} == {u: set(r) for u, r in got[2].items()}, lambda: "the causal graph %r has other adjacencies than the skeleton %r" % (cg, got))
        need(not inv(pc.skeleton) and not inv(pc.causal_graph), "a graph's records are inconsistent")
        arcs, und, other = read_pdag(pc.causal_graph)
        left = applicable(n, arcs, und)
        need(left is None, lambda: "the causal graph is not fully oriented: %s is still applicable" % left)
        # what is done to the causal graph stays there
        for u, v in itertools.permutations(range(n), 2):
            if pc.causal_graph.is_connected(want[u], want[v]):
                pc.causal_graph.remove_edge(want[u], want[v])
                break
        if n:
            pc.causal_graph.remove_node(want[0])
        need(snap(pc.skeleton) == got, "changing the causal graph changed the skeleton")
        for old, sn in runs:
            need(snap(old) == sn, "fitting again changed the earlier skeleton")
        runs.append((pc.skeleton, got))
