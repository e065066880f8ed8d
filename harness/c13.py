"""Histories of queries (by position and by name, both orders of the pair, every kind of collection including one-shot iterators and views) to a recording test class, the Fisher-z test, the d-separation test; every answer is compared with that of a fresh object asked with a plain list. Ids of one to three digits that share digits. Non-trivial: at least four queries."""
from harness.common import *
import numpy as np
from pandas import DataFrame
from cdmir.utils.independence.basic_independence import ConditionalIndependentTest
from cdmir.utils.independence.fisherz import FisherZ
from cdmir.utils.independence.dsep import Dsep

BOUND = "histories of at most 60 queries, at most 130 variables"
nontrivial = lambda c: len(c["queries"]) >= 4
KINDS = ("none", "list", "tuple", "set", "frozenset", "iter", "gen", "dict", "keys", "map")


class Stub(ConditionalIndependentTest):
    def cal_stats(self, x, y, z=None):
        return 0.5, ("stat", frozenset((x, y)), frozenset(z) if z is not None else frozenset())


def carrier(kind, z):
    z = list(z)
    return {"none": lambda: None, "list": lambda: z, "tuple": lambda: tuple(z), "set": lambda: set(z), "frozenset": lambda: frozenset(z), "iter": lambda: iter(z),
            "gen": lambda: (q for q in z), "dict": lambda: {q: 1 for q in z}, "keys": lambda: {q: 1 for q in z}.keys(), "map": lambda: map(lambda q: q, z)}[kind]()


POOLS = ([0, 1, 2, 11, 12, 21, 22, 10, 101, 110, 111, 112], list(range(13)), [1, 2, 12, 11, 112, 121, 21], [0, 1, 2, 3], [1, 10, 100, 11, 110, 101])


def cases(rng, tier):
    for i in range(1500 if tier == "quick" else 30000):
        kind = rng.choice(("stub",) * 6 + ("fisherz", "dsep"))
        pool = rng.choice(POOLS) if kind == "stub" else list(range(rng.choice((4, 6, 12))))
        qs = []
        for _ in range(rng.choice((3, 8, 20, 50))):
            if qs and rng.random() < .35:        # a relative of an earlier query
                x, y, z, _, _ = rng.choice(qs)
                m = rng.randrange(4)
                if m == 0:
                    x, y = y, x
                elif m == 1 and z:
                    x, z = z[0], [x] + z[1:]
                elif m == 2:
                    z = z[:-1] if z else []
                elif m == 3 and z:
                    z = z[::-1]
            else:
                x, y = rng.sample(pool, 2)
                z = rng.sample([p for p in pool if p not in (x, y)], min(len(pool) - 2, rng.choice((0, 1, 1, 2, 2, 3))))
            k = rng.choice(KINDS)
            qs.append([x, y, [] if k == "none" else list(z), k, rng.randrange(2)])
        yield {"kind": kind, "queries": qs, "names": rng.randrange(3), "seed": rng.randrange(10 ** 6), "frame": rng.randrange(2)}


def build(case):
    n = 130 if case["kind"] == "stub" else 12
    r = np.random.RandomState(case["seed"])
    nm = {0: None, 1: ["v%d" % i for i in range(n)][::-1], 2: list(range(n))[::-1]}[case["names"]]
    if case["kind"] == "stub":
        data = np.zeros((2, n))
        return (lambda: Stub(data, nm)), nm or list(range(n))
    if case["kind"] == "fisherz":
        data = r.randn(60, n).dot(r.randn(n, n))
        return (lambda: FisherZ(data, nm)), nm or list(range(n))
    nm = nm or list(range(n))
    g = mk_digraph(nm, rand_dag(random.Random(case["seed"]), n, .25))
    return (lambda: Dsep(np.zeros((2, n)), nm, true_graph=g)), nm


def same(a, b):
    if isinstance(a[1], tuple):
        return a == b
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-6, atol=1e-9, equal_nan=True)


def check(case):
    fresh_one, nm = build(case)
    t = fresh_one()
    for i, (x, y, z, k, by) in enumerate(case["queries"]):
        if by:
            got = t.test(nm[x], nm[y], carrier(k, [nm[q] for q in z]))
        else:
            got = t.itest(x, y, carrier(k, z))
        want = fresh_one().itest(x, y, list(z))
        need(same(got, want), lambda: "query %d (%d, %d | %r as %s): %r, a fresh object says %r" % (i, x, y, z, k, got, want))
