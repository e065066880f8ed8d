"""PDAG cases shared by C07, C08, C10."""
from harness.common import *


def pdag_cases(rng, tier, with_sep=False):
    def mk(kind, n, arcs, und):
        a, u = [list(x) for x in arcs], [list(x) if rng.random() < .5 else [x[1], x[0]] for x in und]
        rng.shuffle(a), rng.shuffle(u)
        return {"kind": kind, "n": n, "arcs": a, "und": u, "names": rng.randrange(5), "salt": rng.randrange(10 ** 6)}
    for n in (0, 1, 2, 3, 4):
        for arcs, und in all_pdags(n):
            if n == 4 and tier == "quick" and rng.random() < .3:
                continue
            yield mk("all", n, arcs, und)
    for c in special_cases():
        for _ in range(6):
            perm = list(range(c[0]))
            rng.shuffle(perm)
            yield mk("meek pattern", c[0], [(perm[a], perm[b]) for a, b in c[1]], [(perm[a], perm[b]) for a, b in c[2]])
    for i in range(1200 if tier == "quick" else 25000):
        n = rng.randrange(5, 7)
        r = rng.random()
        if r < .5:      # some edges of a DAG forgotten
            d = rand_dag(rng, n, rng.choice((.4, .6, .8)))
            q = rng.choice((.2, .5, .8))
            arcs = [e for e in d if rng.random() < q]
            vs = vstructs(n, d)
            keep = {(a, c) for a, c, b in vs} | {(b, c) for a, c, b in vs}
            arcs = sorted(set(arcs) | (keep & set(d)))
            und = [e for e in d if e not in arcs]
        else:
            arcs, und = [], []
            for u, v in itertools.combinations(range(n), 2):
                x = rng.random()
                if x < .25:
                    arcs.append((u, v) if rng.random() < .5 else (v, u))
                elif x < .65:
                    und.append((u, v))
        if len(und) > 11:
            continue
        yield mk("random", n, arcs, und)


def special_cases():
    return [(3, [(0, 1)], [(1, 2)]), (3, [(0, 1), (1, 2)], [(0, 2)]),
            (4, [(1, 3), (2, 3)], [(0, 1), (0, 2), (0, 3)]),
            (4, [(1, 3), (2, 3)], [(0, 1), (0, 2), (0, 3), (1, 2)]),
            (4, [(0, 1), (1, 2)], [(0, 3), (3, 2), (3, 1)]), (4, [(1, 2)], [(0, 1), (0, 3), (3, 2), (3, 1)]),
            (4, [(0, 1), (1, 2), (3, 1)], [(0, 3), (3, 2)]), (4, [(0, 1), (1, 2), (1, 3)], [(0, 3), (3, 2)]),
            (5, [(0, 1)], [(1, 2), (2, 3), (3, 4)]), (5, [(0, 1), (1, 2), (3, 2)], [(1, 4), (2, 4), (3, 4)]),
            (5, [(0, 4), (1, 4), (2, 4)], [(3, 0), (3, 1), (3, 2), (3, 4)])]
