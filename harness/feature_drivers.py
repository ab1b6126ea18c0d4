"""Drivers for the discretiser (C23) and the mapping of variables to features (C24)."""
import json
import os

import stubs
from worker import guarded

ABSENT = 1000000


# ------------------------------------------------------------------ C23
def settings(rng):
    s = {"method": rng.choice(["uniform", "quantile", "outlier", "fixed", "percentiles"]), "buckets": ABSENT, "outlier": ABSENT, "fixed": [ABSENT], "pct": [ABSENT]}
    m = s["method"]
    nd = lambda k, lo, hi: sorted(rng.randint(lo, hi) for _ in range(k))  # noqa: E731
    exact = True
    if m in ("uniform", "quantile"):
        s["buckets"] = rng.choice([1, 2, 3, 4, 5, 7, 8, 10])
        exact = s["buckets"] in (1, 2, 4, 8)
    if m == "outlier":
        s["outlier"] = rng.choice([0, 125, 250, 375, 50, 100, 200, 333, 499])
        exact = s["outlier"] % 125 == 0
    if m == "fixed":
        s["fixed"] = nd(rng.choice([0, 1, 2, 3, 5]), -12, 12)
    if m == "percentiles":
        s["pct"] = sorted(rng.choice([0, 125, 250, 500, 625, 750, 1000]) for _ in range(rng.choice([0, 1, 2, 3, 4])))
        if rng.random() < 0.5:
            s["pct"] = nd(rng.choice([1, 2, 3, 4]), 0, 1000)
            exact = all(p % 125 == 0 for p in s["pct"])
    if rng.random() < 0.3:
        how = rng.randrange(10)
        if how == 0:
            s["method"] = rng.choice(["Uniform", "", "equal", "percentile", "outliers"])
        elif how == 1:
            s["buckets"] = s["outlier"] = ABSENT
            s["fixed"] = s["pct"] = [ABSENT]
        elif how == 2:
            s["outlier"] = rng.choice([500, 501, -1, 1000, 499, 0])
        elif how == 3:
            s["fixed"] = [rng.randint(-9, 9) for _ in range(3)]
        elif how == 4:
            s["pct"] = [rng.randint(0, 1000) for _ in range(3)]
        elif how == 5:
            s["pct"] = sorted([rng.choice([-1, -250, 500]), rng.choice([1001, 1500, 500])])
        elif how == 6:
            s["buckets"] = 3
            exact = exact and m not in ("uniform", "quantile")
        elif how == 7:
            s["fixed"] = sorted([1, 4, 4])
        if s["method"] == "outlier" and s["outlier"] % 125:
            exact = False
        if s["method"] == "percentiles" and any(p % 125 for p in s["pct"]):
            exact = False
    return s, exact


def array(rng, n=None):
    import numpy as np

    n = n if n is not None else rng.choice([1, 2, 3, 4, 5, 6, 9, 12, 17])
    span = rng.choice([2, 5, 12, 40])
    vals = [rng.randint(-span, span) for _ in range(n)]
    if rng.random() < 0.08:  # small types, whose differences overflow
        t = rng.choice([np.int8, np.uint8, np.int16])
        vals = [4 * rng.randint(-120 if t != np.uint8 else 0, 120) for _ in range(n)]
        a = np.array([v // 4 for v in vals], dtype=t)
    elif rng.random() < 0.3:
        vals = [4 * (v // 4) for v in vals]
        a = np.array([v // 4 for v in vals], dtype=rng.choice([int, float]))
    else:
        a = np.array(vals) / 4
    if rng.random() < 0.15 and n % 2 == 0 and n:
        a = a.reshape(n // 2, 2)
    elif rng.random() < 0.1:
        a = a.reshape(n, 1)
    return vals, a


def C23(rng, shard, nshards, tier):
    m = stubs.load("causalnex.discretiser.discretiser")
    hs = json.load(open(os.environ["VERIF_GEN"]))
    for h in hs[shard::nshards]:
        yield generated(rng, m, h)
    for _ in range(350 if tier != "thorough" else 6000):
        s, exact = settings(rng)
        kw = keywords(rng, s)
        yield history(rng, m, s, kw, exact, None)


def keywords(rng, s):
    kw = {}
    if s["buckets"] != ABSENT:
        kw["num_buckets"] = s["buckets"]
    if s["outlier"] != ABSENT:
        kw["outlier_percentile"] = s["outlier"] / 1000
    if s["fixed"] != [ABSENT]:
        kw["numeric_split_points"] = [v / 4 if v % 4 or rng.random() < 0.5 else v // 4 for v in s["fixed"]]
    if s["pct"] != [ABSENT]:
        kw["percentile_split_points"] = [p / 1000 for p in s["pct"]]
    return kw


def history(rng, m, s, kw, exact, given):
    before = repr(kw)
    kind, d = guarded(lambda: m.Discretiser(method=s["method"], **kw) if rng.random() < 0.8 else m.Discretiser(s["method"], **kw))
    blank = {"data": [], "fit": [], "res": [], "shape": [], "wantshape": []}
    ev = [dict(blank, op="new", out=kind, exc=name(d) if kind == "raise" else "", unchanged=repr(kw) == before)]
    fitted = s["method"] == "fixed"
    if kind == "ok":
        for step in range(rng.randint(1, 5) if given is None else 3):
            if given is None:
                op = rng.choice(["fit", "transform", "transform", "both"]) if fitted else rng.choice(["fit", "both"])
                vals, a = array(rng)
            else:
                op, vals, a = given(step)
            snap = repr(a.tolist())
            e = dict(blank, op=op, wantshape=list(a.shape) if op != "fit" else [])
            if op == "fit":
                e["fit"] = vals
                k, r = guarded(lambda: d.fit(a))
                if k == "ok" and r is not d:
                    k = "fit-returned-something-else"
            else:
                e["data"] = vals
                if op == "both":
                    e["fit"] = vals
                    k, r = guarded(lambda: d.fit_transform(a))
                else:
                    k, r = guarded(lambda: d.transform(a))
                if k == "ok":
                    k2, _x = guarded(lambda: e.update(res=[int(x) if x == int(x) else -7 for x in r.flatten().tolist()], shape=list(r.shape)))
                    k = k if k2 == "ok" else "unreadable"
            e.update(out=k, exc=name(r) if k == "raise" else "", unchanged=repr(a.tolist()) == snap and repr(kw) == before)
            ev.append(e)
            if k != "ok":
                if s["method"] != "fixed":
                    break
            else:
                fitted = True
    return {"settings": s, "exact": exact, "ev": ev}, {"kw": repr(kw)}


def generated(rng, m, h):
    """Settings and data of a behaviour of BucketsModel: fit on other data, fit, ask for every value."""
    import numpy as np

    s = h["set"]
    kw = keywords(rng, s)
    unit = rng.choice([1, 4])  # the model's unit is a quarter, or one: then all its numbers are four times as large
    if unit == 4:
        s = dict(s, fixed=[4 * v for v in s["fixed"]] if s["fixed"] != [ABSENT] else s["fixed"])
        kw = keywords(rng, s)
    data = [unit * v for v in h["data"]]
    rng.shuffle(data)
    ask = [unit * v for v in h["ask"]]

    def given(step):
        vals = ask if s["method"] == "fixed" or step == 2 else [unit * rng.randint(-9, 9) for _ in range(4)] if step == 0 else data
        return ("transform" if s["method"] == "fixed" or step == 2 else "fit" if step == 0 else rng.choice(["fit", "both"])), vals, np.array(vals) / 4

    return history(rng, m, s, kw, True, given)


def name(e):
    return "ValueError" if isinstance(e, ValueError) else "RuntimeError" if isinstance(e, RuntimeError) else type(e).__name__


# ------------------------------------------------------------------ C24
def word(x):
    return x["t"] if x["c"] == -1 else "%s:%s" % (x["t"], x.get("written", x["c"]))


def rtype(rng, bad=False):
    if bad and rng.random() < 0.35:
        return rng.choice([{"t": "unknown", "c": -1}, {"t": "", "c": -1}, {"t": "cat", "c": 3}, {"t": "categorical", "c": -1}, {"t": "categorical", "c": -2, "written": ""},
                           {"t": "categorical", "c": -2, "written": "03"}, {"t": "categorical", "c": 0}, {"t": "categorical", "c": -2, "written": "x"}, {"t": "Binary", "c": -1},
                           {"t": "counts"[:4], "c": -1}, {"t": "contin", "c": -1}, {"t": "xbinary", "c": -1},
                           {"t": "discount", "c": -1}, {"t": "binary:2", "c": -1}, {"t": "categorical", "c": -2, "written": "3x"}, {"t": "noncategorical", "c": 3}, {"t": "categorical", "c": -2, "written": "3:4"}])
    t = rng.choice(["binary", "categorical", "continuous", "count"])
    return {"t": t, "c": rng.choice([1, 2, 3, 4, 10, 12]) if t == "categorical" else -1}


def C24(rng, shard, nshards, tier):
    m = stubs.load("causalnex.structure.categorical_variable_mapper")
    hs = json.load(open(os.environ["VERIF_GEN"]))[shard::nshards]
    rng.shuffle(hs)
    hs = hs[:400]
    for round_ in range(len(hs) + (120 if tier != "thorough" else 2500)):
        h = hs[round_]["schema"] if round_ < len(hs) else None
        n = rng.randint(0, 7)
        names = list(rng.choice([["a", "b", "c", "d", "e", "f", "g", "h", "i"], list(range(9)), list(range(3, 12)), ["v%d" % i for i in range(9)], ["a", "ab", "abc", "a_", "b", 1, 10, 11, "ba"], ["x", 0, "y", 7, -1, "long name", "zz", 1, 2.5],
                                  ["a", "a_b", "a_b_c", "b", "a_", "_a", "b_a", "a_b_", "A"], ["x_1x", "x", "x_", "1x", "x_1_", "1", "z", "x_x", "_"]]))
        rng.shuffle(names)
        vs = rng.sample(range(8), n)
        schema = [dict(v=v, **rtype(rng)) for v in vs]
        plan = None
        if h is not None:  # a schema of FeaturesModel: every question about every variable
            vs = [x["v"] for x in h]
            schema = [{"v": x["v"], "t": x["type"], "c": x["card"] if x["type"] == "categorical" else -1} for x in h]
            plan = [(op, v) for v in vs for op in ("indices", "squeezed", "names", "istype")] + [(op, 8) for op in ("features", "variables", "counts", "oftype", "categorical", "indiceslist", "indicesset")]
            rng.shuffle(plan)
        kind, mp = guarded(lambda: m.VariableFeatureMapper({names[x["v"]]: word(x) for x in schema}))
        case = {"schema": [{"v": x["v"], "type": x["t"], "card": max(0, x["c"])} for x in schema], "ev": []}
        look = {}
        for x in schema:
            if x["t"] == "categorical":
                look.update({"%s_%d" % (names[x["v"]], k): [x["v"], k] for k in range(x["c"])})
            else:
                look[names[x["v"]]] = [x["v"], -1]
        var = lambda y: next((i for i, z in enumerate(names) if type(z) is type(y) and z == y), 99)  # noqa: E731
        fts = lambda ys: [look.get(y, [99, 99]) for y in ys]  # noqa: E731
        back = {tuple(v): k for k, v in look.items()}

        def ask(op, fn, read, **kw):
            args = kw.pop("args", None)
            b = repr(args)
            e = dict({"op": op, "v": 98, "type": "", "of": [], "seq": [], "vars": [], "ints": [], "flag": False, "groups": [], "feature": [98, 98], "nodes": [], "given": [], "done": [],
                      "default": {"t": "", "c": 0}}, **kw)
            k, r = guarded(fn)
            e["out"], e["exc"] = k, (name(r) if k == "raise" else "")
            e["unchanged"] = repr(args) == b
            if k == "ok":
                k2, r2 = guarded(lambda: read(e, r))
                if k2 != "ok":
                    e["out"] = k2 if k2 == "inconclusive" else "unreadable"
            case["ev"].append(e)

        if kind == "ok":
            for q in range(rng.randint(4, 12) if plan is None else len(plan)):
                op = rng.choice(["features", "variables", "counts", "oftype", "istype", "indices", "squeezed", "indiceslist", "indicesset", "iter", "categorical", "names", "featureindex"])
                v = rng.choice(vs) if vs and rng.random() < 0.9 else 8
                if plan is not None:
                    op, v = plan[q]
                if op == "features":
                    ask(op, lambda: (mp.feature_list if rng.random() < 0.5 else mp.get_feature_names()), lambda e, r: e.update(seq=fts(r)))
                elif op == "variables":
                    ask(op, lambda: mp.variable_list, lambda e, r: e.update(vars=[var(y) for y in r]))
                elif op == "counts":
                    ask(op, lambda: (mp.n_variables, mp.n_features), lambda e, r: e.update(ints=list(r)))
                elif op == "oftype":
                    t = rng.choice(["binary", "categorical", "continuous", "count", "count", "cat", "", "ordinal", "categorical:3"])
                    ask(op, lambda: mp.get_var_of_type(t), lambda e, r: e.update(vars=[var(y) for y in r]), type=t)
                elif op == "istype":
                    t = rng.choice(["binary", "categorical", "continuous", "count", "count", "cat", ""])
                    ask(op, lambda: mp.is_var_of_type(names[v], t), lambda e, r: e.update(flag=bool(r)), type=t, v=v)
                elif op == "indices":
                    ask(op, lambda: mp.get_indices(names[v]), lambda e, r: e.update(ints=[int(i) for i in r]), v=v)
                elif op == "squeezed":
                    ask(op, lambda: mp.get_indices(names[v], squeeze=True), lambda e, r: e.update(flag=not isinstance(r, list), ints=r if isinstance(r, list) else [int(r)]), v=v)
                elif op in ("indiceslist", "indicesset", "iter"):
                    of = rng.sample(vs, rng.randint(0, len(vs)))
                    if rng.random() < 0.1:
                        of.append(8)
                    if op == "indiceslist" and of and rng.random() < 0.2:
                        of.append(of[0])
                    xs = [names[i] for i in of]
                    arg = set(xs) if op == "indicesset" else xs
                    sq = {"squeeze": True} if rng.random() < 0.2 else {}
                    ask("indiceslist" if op == "iter" else op, lambda: mp.get_indices(iter(xs) if op == "iter" else arg, **sq), lambda e, r: e.update(ints=[int(i) for i in r]), of=of, args=arg)
                elif op == "categorical":
                    ask(op, lambda: mp.get_categorical_indices(), lambda e, r: e.update(groups=[[int(i) for i in g] for g in r]))
                elif op == "names":
                    if v != 8:
                        ask(op, lambda: mp.get_feature_names(names[v]), lambda e, r: e.update(flag=isinstance(r, list), seq=fts(r if isinstance(r, list) else [r])), v=v)
                elif op == "featureindex":
                    fs = list(back)
                    f = list(rng.choice(fs)) if fs and rng.random() < 0.8 else [v, -1]
                    nm = back.get(tuple(f), names[f[0]])
                    ask(op, lambda: mp.get_feature_index(nm), lambda e, r: e.update(ints=[int(r)]), feature=f)
        else:
            ask("features", lambda: (_ for _ in ()).throw(mp) if kind == "raise" else None, lambda e, r: None)
        # schemas to be completed
        for _ in range(2):
            nodes = rng.sample(range(9), rng.randint(0, 6))
            given = [dict(v=v, **rtype(rng, True)) for v in rng.sample(range(9), rng.randint(0, 6))]
            dflt = rtype(rng, True)
            bynode = {names[x["v"]]: word(x) for x in given}
            xs = [names[i] for i in nodes]
            words = {}
            for x in given + [dflt]:
                words[word(x)] = {"t": x["t"], "c": x["c"]}
            kw = {}
            if word(dflt) != "continuous" or rng.random() < 0.5:
                kw["default_type"] = word(dflt)
            if given or rng.random() < 0.5:
                kw["schema"] = bynode
            arg = rng.choice([list, set, lambda z: dict.fromkeys(z)])(xs) if rng.random() < 0.5 else xs
            strip = lambda xs_: [{k: x[k] for k in ("v", "t", "c")} for x in xs_]  # noqa: E731
            ask("complete", lambda: m.validate_schema(arg, **kw),
                lambda e, r: e.update(done=[dict(v=var(k), **words.get(t, {"t": "?", "c": 0})) for k, t in r.items()]),
                nodes=nodes, given=strip(given), default={"t": dflt["t"], "c": dflt["c"]}, args=(xs, bynode))
        yield case, {"names": repr(names)}
