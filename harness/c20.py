"""Lists of clusters (empty clusters, repeated clusters, chains of overlaps, unordered and repeated members) over small alphabets; the groups are compared with the connected groups found by repeated merging. Non-trivial: some two clusters overlap."""
from harness.common import *
from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Overlap_Merge

BOUND = "at most 8 clusters over 12 names"
nontrivial = lambda c: sum(len(set(l)) for l in c["sets"]) > len(set().union(*map(set, c["sets"])))


def cases(rng, tier):
    for i in range(2500 if tier == "quick" else 40000):
        al = list(range(rng.choice((1, 3, 5, 8, 12))))
        if rng.random() < .5:
            al = ["x%d" % a for a in al]
        size = rng.choice(((0, 1, 2), (1, 2, 2, 3), (2,), (0, 1, 4)))
        sets = [[rng.choice(al) for _ in range(rng.choice(size))] for _ in range(rng.randrange(9))]
        if rng.random() < .3:
            m = min(len(al) - 1, 8)
            sets = [[al[j], al[j + 1]] for j in range(m)]      # a chain
            rng.shuffle(sets)
        yield {"sets": sets, "kind": rng.choice(("list", "tuple", "set"))}


def check(case):
    mk = {"list": list, "tuple": tuple, "set": set}[case["kind"]]
    given = [mk(l) for l in case["sets"]]
    before = repr(given)
    got = Overlap_Merge.merge_list(given)
    need(repr(given) == before, "the input list was modified")
    want = []
    for l in case["sets"]:
        s = set(l)
        if not s:
            continue
        touch = [w for w in want if w & s]
        want = [w for w in want if not w & s] + [s.union(*touch)]
    groups = [set(g) for g in got if len(g)]
    need(sorted(map(sorted, groups)) == sorted(map(sorted, want)), lambda: "merging %r gives %r, the connected groups are %r" % (given, got, want))
    for g in got:
        need(len(set(g)) == len(g), lambda: "group %r repeats a member" % (g,))
