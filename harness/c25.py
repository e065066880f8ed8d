"""Arrays and frames (every element type, string, integer and tuple column names, views, zero rows, one column), with and without names (lists and tuples, right and wrong counts, None, omitted, by keyword), extra positional and keyword arguments, refused inputs (lists, matrices, series, dictionaries, None), through the adapter on a recording method and through the tests and PC. Non-trivial: accepted inputs."""
from harness.common import *
import numpy as np
import pandas as pd
from cdmir.utils.adapters import data_form_converter_for_class_method as adapter
from cdmir.utils.independence.basic_independence import ConditionalIndependentTest
from cdmir.discovery.constraint.pc import PC
from cdmir.utils.independence.dsep import Dsep

BOUND = "at most 6 columns and 8 rows"
INPUTS = ("array", "frame", "int-array", "object-frame", "view", "int-columns", "tuple-columns", "one-column", "no-rows", "list", "matrix", "series", "dict", "none", "tuple", "subframe")
BAD = ("list", "matrix", "series", "dict", "none", "tuple", "subframe")
nontrivial = lambda c: c["input"] not in BAD


class SubFrame(pd.DataFrame):
    pass


def cases(rng, tier):
    for inp in INPUTS:
        for nm in ("omitted", "none", "list", "tuple", "short", "long", "ints", "empty"):
            for call in ("position", "keyword", "extra"):
                yield {"input": inp, "names": nm, "call": call, "cols": rng.randrange(2, 6), "seed": rng.randrange(1000), "via": "adapter"}
        yield {"input": inp, "names": "list", "call": "position", "cols": 4, "seed": 1, "via": "test"}
        yield {"input": inp, "names": "omitted", "call": "position", "cols": 4, "seed": 1, "via": "test"}
        if inp not in BAD + ("no-rows", "object-frame", "one-column"):
            yield {"input": inp, "names": "list", "call": "position", "cols": 4, "seed": 1, "via": "pc"}
            yield {"input": inp, "names": "none", "call": "keyword", "cols": 4, "seed": 2, "via": "pc"}


def check(case):
    r = np.random.RandomState(case["seed"])
    k = 1 if case["input"] == "one-column" else case["cols"]
    a = r.randn(5, k)
    cols = ["c%d" % i for i in range(k)][::-1]
    data, vals, own = {
        "array": lambda: (a, a, None), "int-array": lambda: ((10 * a).astype(int), (10 * a).astype(int), None), "view": lambda: (r.randn(k, 5).T, None, None),
        "frame": lambda: (pd.DataFrame(a, columns=cols), a, cols), "int-columns": lambda: (pd.DataFrame(a), a, list(range(k))),
        "tuple-columns": lambda: (pd.DataFrame(a, columns=pd.Index([(i, "x") for i in range(k)], tupleize_cols=False)), a, [(i, "x") for i in range(k)]),
        "object-frame": lambda: (lambda d: (d, d.to_numpy(), cols))(pd.DataFrame([[str(v) if j else v for j, v in enumerate(row)] for row in a], columns=cols)),
        "one-column": lambda: (pd.DataFrame(a, columns=cols), a, cols), "no-rows": lambda: (pd.DataFrame(a[:0], columns=cols), a[:0], cols),
        "list": lambda: (a.tolist(), None, None), "matrix": lambda: (np.asmatrix(a), None, None), "series": lambda: (pd.Series(a[:, 0]), None, None), "dict": lambda: ({"a": [1]}, None, None),
        "none": lambda: (None, None, None), "tuple": lambda: ((1, 2), None, None), "subframe": lambda: (SubFrame(a), None, None)}[case["input"]]()
    if vals is None and case["input"] == "view":
        vals = data
    given = {"omitted": None, "none": None, "list": ["n%d" % i for i in range(k)], "tuple": tuple("n%d" % i for i in range(k)), "short": ["n%d" % i for i in range(k - 1)],
             "long": ["n%d" % i for i in range(k + 1)], "ints": list(range(k))[::-1], "empty": []}[case["names"]]
    bad = case["input"] in BAD or given is not None and len(given) != k
    before = data.copy() if hasattr(data, "copy") else data
    want = list(given) if given is not None else own if own is not None else list(range(k))
    log = []

    class Thing:
        @adapter
        def method(self, data, var_names=None, more=None, *args, **kwargs):
            log.append((self, data, var_names, more, args, kwargs))
            return "answer"
    t = Thing()
    via = case["via"]
    try:
        if via == "adapter":
            pos, kws, extra = [data], {}, ()
            if case["names"] != "omitted":
                (kws.__setitem__("var_names", given) if case["call"] == "keyword" else pos.append(given))
            if case["call"] == "extra":
                if len(pos) == 1:
                    pos.append(None)
                extra = (1, 2)
                kws["flag"] = 3
            ans = t.method(*pos, *extra, **kws)
        elif via == "test":
            ct = ConditionalIndependentTest(data) if case["names"] == "omitted" else ConditionalIndependentTest(data, given)
        else:
            nm = list(given) if given is not None else own if own is not None else list(range(k))
            g = mk_digraph(nm, [(0, 1), (1, 2)])
            pc = PC()
            pc.fit(data, given, indep_cls=Dsep, true_graph=g)
    except AssertionError:
        need(bad, "refused although kind and count are right")
        need(not log, "the method was called all the same")
        return
    need(not bad, lambda: "accepted %s with %s names" % (case["input"], case["names"]))
    if via == "adapter":
        need(len(log) == 1 and ans == "answer", lambda: "called %d times, answer %r" % (len(log), ans))
        me, d, n, more, args, kws = log[0]
        need(me is t, "another object")
        if case["call"] == "extra":
            need((more, args, kws) == (1, (2,), {"flag": 3}), lambda: "further arguments %r" % ((more, args, kws),))
        else:
            need((more, args, kws) == (None, (), {}), lambda: "further arguments %r" % ((more, args, kws),))
    elif via == "test":
        d, n = ct._data, ct.var_names
    else:
        d, n = pc.indep_test._data, pc.indep_test.var_names
        need(list(pc.skeleton.node_list) == list(pc.causal_graph.node_list) == list(n), "the graphs have other names")
        need(set(pc.sep_set) == {(u, v) for u in n for v in n if u != v}, "separators under other names")
    need(type(d) is np.ndarray, lambda: "the values come as %s" % type(d).__name__)
    need(d.shape == vals.shape and (d == vals).all(), "other values or another order")
    need(list(n) == want, lambda: "names %r, expected %r" % (n, want))
    need(list(type(x) for x in n) == list(type(x) for x in want), "names of another kind")
    if isinstance(data, np.ndarray):
        need((before == data).all(), "the input was modified")
