"""Histories of evaluations of the Gaussian, polynomial, linear and base kernels, with parameter and strategy changes in between; data sets that differ in one entry far inside a large array, share their bytes in another shape or element type, are views, transposes or were changed in place; every matrix is compared with that of a fresh object with the parameters in force. Non-trivial: at least four evaluations."""
from harness.common import *
import numpy as np
from cdmir.utils.kernel import BaseKernel, GaussianKernel, LinearKernel, PolynomialKernel

BOUND = "histories of at most 30 evaluations, arrays of at most 4000 entries"
nontrivial = lambda c: len(c["steps"]) >= 4
W = GaussianKernel.WidthStrategyEnum


class Rec(BaseKernel):
    """the base class with a recording kernel function"""

    def _BaseKernel__kernel_func(self, x, y):
        return ("kernel", x.shape, x.dtype.str, x.tobytes(), None if y is None else (y.shape, y.dtype.str, y.tobytes()))


def cases(rng, tier):
    for i in range(700 if tier == "quick" else 12000):
        kind = rng.choice(("gaussian", "gaussian", "polynomial", "linear", "base"))
        size = rng.choice((4, 4, 8, 30, 1200 if i % 15 == 0 else 12))
        steps = []
        for _ in range(rng.choice((3, 8, 20)) if size < 100 else 5):
            r = rng.random()
            if kind == "gaussian" and r < .2:
                steps.append(["width", rng.choice((.1, 1.0, 1.0000000001, 2.5, 1))])
            elif kind == "gaussian" and r < .35 and size < 100:
                steps.append(["strategy", rng.choice(("manual", "median", "empirical_kci", "empirical_hsic"))])
            elif kind == "polynomial" and r < .35:
                steps.append(rng.choice((["degree", rng.choice((1, 2, 3, 12))], ["const", rng.choice((0.0, 1.0, 2.0, 1.5))])))
            elif r < .45:
                steps.append(["poke", rng.randrange(4), rng.randrange(10 ** 6), rng.choice((0.0, 1.0, 7.5))])
            else:
                steps.append(["eval", rng.randrange(9), rng.randrange(9) if kind != "gaussian" or rng.random() < .8 else -1])
        yield {"kind": kind, "size": size, "steps": steps, "seed": rng.randrange(10 ** 6)}


def build(case):
    r = np.random.RandomState(case["seed"])
    n = case["size"]
    a = np.round(r.randn(n, 2), 1)
    b = a.copy()
    b[n // 2, 1] += 1e-7 if n > 20 else 1.0
    i = r.randint(0, 3, size=(n, 2))
    f = np.frombuffer(i.astype(np.int64).tobytes(), dtype=np.float64).reshape(n, 2)        # the same bytes as other numbers
    arrs = [a, b, i.astype(np.int64), i.astype(float), f.copy(), np.ascontiguousarray(a.reshape(-1)[: 4 * (n // 2)].reshape(-1, 2)), a[::-1], np.asfortranarray(a), a[:, ::-1]]
    mk = {"gaussian": GaussianKernel, "polynomial": PolynomialKernel, "linear": LinearKernel, "base": Rec if hasattr(BaseKernel, "_BaseKernel__kernel_func") else LinearKernel}[case["kind"]]
    return mk, arrs


def value(v):
    return v if isinstance(v, tuple) else np.array(v, copy=True)


def check(case):
    mk, arrs = build(case)
    k = mk()
    par = {}
    for j, st in enumerate(case["steps"]):
        if st[0] == "poke":
            q = arrs[st[1]]
            q[st[2] % q.shape[0], (st[2] // 7) % 2] = st[3]
        elif st[0] == "strategy":
            k.width_strategy = par["width_strategy"] = W[st[1]]
        elif st[0] in ("width", "degree", "const"):
            setattr(k, st[0], st[1])
            par[st[0]] = st[1]
        else:
            x, y = arrs[st[1]], None if st[2] < 0 else arrs[st[2]]
            if par.get("width_strategy") == W.median and len(np.unique(x, axis=0)) < 2:
                continue
            fresh = mk()
            for p, v in par.items():
                setattr(fresh, p, v)
            if case["kind"] == "gaussian":
                fresh.width = k.width
            x0 = x.copy()
            got, want = value(k(x, y)), value(fresh(x.copy(), None if y is None else y.copy()))
            need(np.array_equal(x, x0), "the data were modified")
            ok = got == want if isinstance(want, tuple) else got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True)
            need(ok, lambda: "step %d %r: the matrix differs from that of a fresh kernel" % (j, st))
            if case["kind"] == "gaussian":
                need(np.isclose(k.width, fresh.width, equal_nan=True), lambda: "step %d: width %r, a fresh kernel uses %r" % (j, k.width, fresh.width))
                if par.get("width_strategy", W.manual) == W.manual:
                    d = ((x[:, None, :].astype(float) - (x if y is None else y)[None, :, :]) ** 2).sum(-1)
                    need(np.allclose(got, np.exp(-.5 * d * k.width), equal_nan=True), "not the Gaussian of the data and the width in force")
            elif case["kind"] == "polynomial":
                need(np.allclose(got, (k.const + x.dot(y.T)) ** k.degree, equal_nan=True), "not the polynomial of the data and the parameters in force")
