"""Clusters (lists, tuples, sets, with repetitions and in any order, empty too) over small alphabets against lists of clusters and indexed clusters: every helper against a direct enumeration, inputs unmodified. Non-trivial: a non-empty list of clusters."""
from harness.common import *
from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils

BOUND = "at most 6 clusters of at most 5 names"
nontrivial = lambda c: len(c["sets"]) > 0


def cases(rng, tier):
    for i in range(2500 if tier == "quick" else 40000):
        al = ["x%d" % k for k in range(rng.choice((1, 2, 3, 4, 6)))]
        cl = lambda: [rng.choice(al) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 5)))]
        sets = [cl() for _ in range(rng.randrange(7))]
        s1 = rng.choice(sets)[:] if sets and rng.random() < .4 else cl()
        rng.shuffle(s1)
        yield {"s1": s1, "sets": sets, "more": [cl() if rng.random() < .6 or not sets else sorted(rng.choice(sets)) for _ in range(rng.randrange(5))], "kind": rng.choice(("list", "set", "tuple", "mix"))}


RELS = {"=": lambda a, b: a == b, "<=": lambda a, b: a <= b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, ">": lambda a, b: a > b}


def check(case):
    k = {"list": list, "set": set, "tuple": tuple, "mix": list}[case["kind"]]
    mk = lambda l, i=0: (list, set, tuple)[i % 3](l) if case["kind"] == "mix" else k(l)
    s1, sets = mk(case["s1"]), [mk(l, i) for i, l in enumerate(case["sets"])]
    more = [mk(l, i + 1) for i, l in enumerate(case["more"])]
    A, B = set(case["s1"]), [set(l) for l in case["sets"]]
    keep = repr((s1, sets, more))
    some = {o: any(f(A, b) for b in B) for o, f in RELS.items()}
    for name, got, want in [("contains", Utils.GeneralSetContains(s1, sets), some["="]), ("covered", Utils.GeneralSetCover(s1, sets), some["<="]), ("strictly covered", Utils.GeneralSetStrictCover(s1, sets), some["<"])] + \
            [("operator %s" % o, Utils.GeneralSetOperator(s1, sets, o), some[o]) for o in RELS]:
        need(got is want, lambda: "%s: %r in %r gives %r, expected %r" % (name, s1, sets, got, want))
    dic = {"L%d" % i: s for i, s in enumerate(sets)}
    need(Utils.GeneralDicContains(s1, dic) is some["="], lambda: "indexed clusters: %r in %r gives %r" % (s1, dic, Utils.GeneralDicContains(s1, dic)))
    key = Utils.GetEarlyLearningByDic(s1, dic)
    need(key == "" if not some["="] else key in dic and set(dic[key]) == A, lambda: "index of %r in %r is given as %r" % (s1, dic, key))
    need(repr((s1, sets, more)) == keep, "an input was modified by a query")
    want, seen = list(sets), [set(s) for s in sets]
    for s in more:
        if set(s) not in seen:
            want.append(s)
            seen.append(set(s))
    m2 = list(more)
    r = Utils.ExtendList(sets, more)
    need(list(r) == want and all(type(a) is type(b) for a, b in zip(r, want)), lambda: "extending by %r gives %r, expected %r" % (more, r, want))
    need(sets == want, "the list was not extended in place")
    need(more == m2, "the clusters to add were modified")
