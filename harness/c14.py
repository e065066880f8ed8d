"""Histories of score queries (every kind of parent collection, including one-shot iterators; same members in other orders; related queries) to each score class with a recording score function, and to the BIC, BDeu and cross-validated scores on random data; every answer is compared with that of a fresh object asked with a plain list. Non-trivial: at least four queries."""
from harness.common import *
import numpy as np
from pandas import DataFrame
from cdmir.utils.local_score import BaseLocalScoreFunction, BICScore, BDeuScore, GeneralCVScore, MultiCVScore, GeneralMarginalScore, MultiMarginalScore
from harness.c13 import carrier, KINDS

BOUND = "histories of at most 50 queries"
CLASSES = (BaseLocalScoreFunction, BICScore, BDeuScore, GeneralCVScore, MultiCVScore, GeneralMarginalScore, MultiMarginalScore)
BIG = 2 ** 61 - 1
POOLS = ([0, 1, 2, 11, 12, 21, 22, 10, 101, 110, 111, 112], [1, 2, 12, 11, 112, 121, 21], [0, 1, 2, 3], [1, 10, 100, 11, 110, 101], [0, BIG, 1, BIG + 1, 2])
nontrivial = lambda c: len(c["queries"]) >= 4


def cases(rng, tier):
    for i in range(1500 if tier == "quick" else 20000):
        kind = rng.choice(("stub",) * 8 + ("bic", "bic", "bdeu") + (("cv",) if i % 40 == 0 else ()))
        pool = rng.choice(POOLS) if kind == "stub" else list(range(6))
        qs = []
        for _ in range(rng.choice((3, 8, 20, 40)) if kind != "cv" else 4):
            if qs and rng.random() < .4:
                y, z, _ = rng.choice(qs)
                m = rng.randrange(5)
                if m == 0:
                    z = z[:-1]
                elif m == 1 and z:
                    y, z = z[0], [y] + z[1:]
                elif m == 2:
                    z = z[::-1]
                elif m == 3:
                    y = rng.choice([p for p in pool if p not in z])
            else:
                y, = rng.sample(pool, 1)
                z = rng.sample([p for p in pool if p != y], min(len(pool) - 1, rng.choice((0, 1, 1, 2, 2, 3))))
            if kind == "bdeu" and not z:
                z = [(y + 1) % 6]
            qs.append([y, list(z), rng.choice(KINDS[1:])])
        yield {"kind": kind, "queries": qs, "cls": rng.randrange(len(CLASSES)), "seed": rng.randrange(10 ** 6), "frame": rng.randrange(2)}


def build(case):
    r = np.random.RandomState(case["seed"])
    if case["kind"] == "stub":
        cls = CLASSES[case["cls"]]
        if not hasattr(cls, "_score_function"):
            cls = BICScore
        Rec = type("Rec", (cls,), {"_score_function": lambda self, i, parent_i: ("score", i, frozenset(parent_i))})
        data = r.randn(8, 4)
        return lambda: Rec(data)
    if case["kind"] == "bic":
        d = r.randn(50, 6).dot(r.randn(6, 6))
        if case["frame"]:
            d = DataFrame(d)
        return lambda: BICScore(d)
    if case["kind"] == "bdeu":
        d = (r.randn(30, 6) > .3).astype(int)
        return lambda: BDeuScore(d)
    d = r.randn(14, 6)
    return lambda: (GeneralCVScore, MultiCVScore)[case["cls"] % 2](d, k_fold=2)


def check(case):
    mk = build(case)
    s = mk()
    for i, (y, z, k) in enumerate(case["queries"]):
        got = s(y, carrier(k, z))
        want = mk()(y, list(z))
        ok = got == want if isinstance(want, tuple) else np.allclose(got, want, rtol=1e-6, atol=1e-8, equal_nan=True)
        need(ok, lambda: "query %d (%d, %r as %s): %r, a fresh object says %r" % (i, y, z, k, got, want))
