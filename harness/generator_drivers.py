"""Drivers for the generators of structures (C27), tables (C28) and time series (C29)."""
import math
import warnings

import stubs
from worker import Inconclusive, guarded


def exc(e):
    return "ValueError" if isinstance(e, ValueError) else type(e).__name__


def big(x, unit):
    x = float(x)
    if x != x:
        return -2000000000
    return int(max(-2000000000, min(2000000000, round(x * unit))))


def lab(x):
    """'3_lag2' -> (3, 2)"""
    a, b = str(x).split("_lag")
    return [int(a), int(b)]


# ------------------------------------------------------------------ C27
def C27(rng, shard, nshards, tier):
    import numpy as np

    m = stubs.load("causalnex.structure.data_generators")
    for i in range(60 if tier != "thorough" else 1200):
        ev = []
        for _ in range(rng.randint(1, 4)):
            np.random.seed(rng.randrange(2 ** 31))
            n = rng.choice([2, 2, 3, 4, 5, 6, 8, 10])
            typ = rng.choice(["erdos-renyi", "barabasi-albert", "full"])
            deg = rng.choice([0, 1, 2, 3, 1.5, n - 1, n, 20]) if typ != "barabasi-albert" else rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 1.2, 2.6, 8])
            lo, hi = sorted(rng.choice([0.25, 0.5, 1, 1.5, 2, 0.125]) for _ in range(2))
            if rng.random() < 0.15:
                lo, hi = rng.choice([(-0.5, 2), (0.5, -2), (-1, -1.5), (0.5, 0.5)])
            if rng.random() < 0.25:
                how = rng.randrange(3)
                if how == 0:
                    n = rng.choice([1, 0, -2])
                elif how == 1:
                    lo, hi = rng.choice([(2, 1), (-2, 1.5), (0.5, 0)])
                else:
                    typ = rng.choice(["", "erdos", "Full", "tree", None])
            dyn = rng.random() < 0.45
            kw = {}
            base = {"n": n, "type": str(typ), "degree": int(round(100 * deg)), "lo": int(lo * 1000), "hi": int(hi * 1000), "nodes": [], "edges": [], "exc": "",
                    "p": 0, "ptype": "", "pdegree": 0, "plo": 0, "phi": 0, "num": 1, "den": 1, "lagged": [], "past": [], "stray": False, "counts": []}
            if not dyn:
                if typ != "erdos-renyi" or rng.random() < 0.7:
                    kw["graph_type"] = typ
                if (lo, hi) != (0.5, 0.5) or rng.random() < 0.5:
                    kw.update(w_min=lo, w_max=hi)
                k, g = guarded(lambda: m.generate_structure(n, deg, **kw))
                e = dict(base, op="structure")
                if k == "ok":
                    def read():
                        e["nodes"] = [int(x) for x in g.nodes]
                        e["edges"] = [[int(u), int(v), big(w, 10 ** 6)] for u, v, w in g.edges(data="weight")]
                    k2, r = guarded(read)
                    k = k if k2 == "ok" else "unreadable"
            else:
                p = rng.choice([0, 1, 1, 2, 3])
                n = min(n, 6)
                pt = rng.choice(["erdos-renyi", "full"])
                pdeg = rng.choice([0, 1, 2, n, 3 * n])
                plo, phi = sorted(rng.choice([0.25, 0.5, 1, 1.5, 2]) for _ in range(2))
                if rng.random() < 0.15:
                    if rng.random() < 0.5:
                        plo, phi = 2, 1
                    else:
                        pt = rng.choice(["barabasi-albert", "", "Full"])
                num, den = rng.choice([(1, 1), (2, 1), (3, 2), (5, 4), (3, 1)])
                base.update(n=n, p=p, ptype=pt, pdegree=int(100 * pdeg), plo=int(plo * 1000), phi=int(phi * 1000), num=num, den=den)
                k, g = guarded(lambda: m.generate_structure_dynamic(n, p, deg, pdeg, graph_type_intra=typ, graph_type_inter=pt, w_min_intra=lo, w_max_intra=hi,
                                                                   w_min_inter=plo, w_max_inter=phi, w_decay=num / den))
                e = dict(base, op="dynamic")
                if k == "ok":
                    def read2():
                        e["lagged"] = [lab(x) for x in g.nodes]
                        for u, v, w in g.edges(data="weight"):
                            (a, la), (b, lb) = lab(u), lab(v)
                            if la == 0 and lb == 0:
                                e["edges"].append([a, b, big(w, 10 ** 6)])
                            elif lb == 0:
                                e["past"].append([a, la, b, big(w, 10 ** 6)])
                            else:
                                e["stray"] = True
                    k2, r = guarded(read2)
                    k = k if k2 == "ok" else "unreadable"
            e["out"] = k
            if k == "raise":
                e["exc"] = exc(g)
            ev.append(e)
        if i % 30 == 0:
            ev.append(frequencies(rng, m, np, base))
        yield {"ev": ev}, {}


def frequencies(rng, m, np, base):
    """Many small random structures: edges, directions, signs and sizes of weights."""
    np.random.seed(rng.randrange(2 ** 31))
    R = 1500
    n = rng.choice([3, 4, 5])
    deg = rng.choice([1, 1.5, 2])
    dyn = rng.random() < 0.5
    e = dict(base, op="counts", counts=[])

    def run():
        seen, pos, low, tot = {}, 0, 0, 0
        past, ptot, ppos, plow = {}, 0, 0, 0
        for _ in range(R if not dyn else R // 2):
            if dyn:
                g = m.generate_structure_dynamic(n, 2, deg, deg, w_min_intra=1, w_max_intra=2, w_min_inter=1, w_max_inter=2)
            else:
                g = m.generate_structure(n, deg, "erdos-renyi", 1, 2)
            for u, v, w in g.edges(data="weight"):
                if dyn:
                    (u, lu), (v, _lv) = lab(u), lab(v)
                    if lu:
                        past[u, lu, v] = past.get((u, lu, v), 0) + 1
                        ptot, ppos, plow = ptot + 1, ppos + (w > 0), plow + (abs(w) < 1.5)
                        continue
                seen[u, v] = seen.get((u, v), 0) + 1
                tot, pos, low = tot + 1, pos + (w > 0), low + (abs(w) < 1.5)
        r = R if not dyn else R // 2
        out = [[seen.get((u, v), 0), r, int(10 * deg), 20 * (n - 1)] for u in range(n) for v in range(n) if u != v]
        out += [[int(pos), tot, 1, 2], [int(low), tot, 1, 2]]
        if dyn:
            out += [[past.get((u, l, v), 0), r, int(10 * deg), 10 * n] for u in range(n) for v in range(n) for l in (1, 2)]
            out += [[int(ppos), ptot, 1, 2], [int(plow), ptot, 1, 2]]
        e["counts"] = out

    k, r = guarded(run, 90)
    e["out"] = k if k != "raise" else "raise"
    return e


# ------------------------------------------------------------------ C28
NAMES = [["a", "b", "c", "d", "e"], list(range(5)), ["x1", "x10", "x2", "y", "z"], [3, "n", 1, "b", "q"], [7, 5, 3, 2, 1]]


def dag(rng, n, cyc):
    order = list(range(n))
    rng.shuffle(order)
    es = []
    for i in range(n):
        for j in range(i):
            if rng.random() < rng.choice([0.3, 0.6]):
                es.append((order[j], order[i]))
    if cyc and n > 1:
        a, b = rng.sample(range(n), 2)
        es = [e for e in es if set(e) != {a, b}] + [(a, b), (b, a)]
    rng.shuffle(es)
    return es


def C28(rng, shard, nshards, tier):
    import numpy as np
    import networkx as nx

    m = stubs.load("causalnex.structure.data_generators")
    sm = stubs.structure()
    for i in range(45 if tier != "thorough" else 900):
        n = rng.choice([1, 2, 3, 3, 4, 5])
        names = list(rng.choice(NAMES))
        rng.shuffle(names)
        names = names[:n]
        es = dag(rng, n, rng.random() < 0.1)
        mode = rng.choice(["mixed", "mixed", "mixed", "continuous", "binary", "count", "categorical"])
        ts = [rng.choice(["binary", "continuous", "continuous", "count", "categorical"]) if mode == "mixed" else mode for _ in range(n)]
        one = rng.choice([2, 3, 4])
        cards = [(rng.choice([1, 2, 3, 4]) if mode == "mixed" else one) if t == "categorical" else 0 for t in ts]
        weights = {x: rng.choice([99, 99, 1, 2, 3, -2, -1, 4]) for x in es} if rng.random() < 0.4 else {x: rng.choice([1, 2, 3, -2, -1, -4, 4]) for x in es}
        g = (sm.StructureModel if rng.random() < 0.7 else nx.DiGraph)()
        g.add_nodes_from(names)
        for x in es:
            if weights[x] == 99:
                g.add_edge(names[x[0]], names[x[1]])
            else:
                g.add_edge(names[x[0]], names[x[1]], weight=weights[x] / 2)
        order = [names.index(x) for x in g.nodes]
        word = lambda v: ts[v] if ts[v] != "categorical" else "categorical:%d" % cards[v]  # noqa: E731
        case = {"schema": [{"v": v, "type": ts[v], "card": cards[v]} for v in order], "edges": [[a, b, weights[a, b]] for a, b in es], "ev": []}
        look = {}
        for v in range(n):
            if ts[v] == "categorical":
                look.update({"%s_%d" % (names[v], k): [v, k] for k in range(cards[v])})
            else:
                look[names[v]] = [v, -1]
        blank = {"exc": "", "unchanged": True, "badtype": False, "baddists": [], "intercept": True, "form": "frame", "n": 0, "cols": [], "rows": [], "reproduced": True, "noiseless": False, "determined": False, "batched": False, "groups": [], "zeros": False,
                 "balance": False, "dist": "", "sd": 10, "mean": 0, "var": 0, "corr": 0, "score": 0, "inflation": 0, "count": [0, 0, 0, 1], "shifted": False}
        for _ in range(rng.randint(1, 3)):
            e = dict(blank, op="make", n=rng.choice([1, 2, 7, 20, 60, 120]))
            noise = rng.choice([0, 0, 0.5, 1, 3])
            nonlin = rng.random() < 0.3
            seed = rng.randrange(2 ** 31)
            icpt = rng.random() < 0.5
            dists = {}
            for t, opts in (("continuous", ["gaussian", "normal", "student-t", "exponential", "gumbel"]), ("binary", ["probit", "normal", "logit"]), ("categorical", ["probit", "normal", "logit", "gumbel"]),
                            ("weight", ["uniform", "gaussian", "normal"]), ("intercept", ["uniform", "gaussian", "normal"])):
                if rng.random() < 0.4:
                    dists[t] = rng.choice(opts)
            if rng.random() < 0.3:
                dists["count"] = rng.choice([0, 0.5, 1, 1.0, 0.05])
            bad = []
            if rng.random() < 0.12:
                t = rng.choice(["continuous", "binary", "categorical", "count", "weight", "intercept"])
                dists[t] = rng.choice(["nope", "", "Gaussian"]) if t != "count" else rng.choice([-0.1, 1.5, "x"])
                if not (nonlin and t in ("weight", "intercept")):
                    bad.append(t)
            single = mode != "mixed" and rng.random() < 0.6
            kw = {"seed": seed, "n_samples": e["n"]}
            kernel = stubs.kernel(rng.choice([1.0, 0.5, 2.0]))
            if single:
                # the helpers for one type of variable
                if any(t in ("weight", "intercept") for t in bad):
                    bad = [t for t in bad if t not in ("weight", "intercept")]
                nm = {"continuous": "continuous", "binary": "binary", "count": "count", "categorical": "categorical"}[mode]
                form = "data" if mode in ("continuous", "binary") and rng.random() < 0.5 else "dataframe"
                e["form"] = "nodes" if form == "data" else "frame"
                fn = getattr(m, "generate_%s_%s" % (nm, form))
                if mode == "count":
                    if "count" in dists:
                        kw["zero_inflation_factor"] = dists["count"]
                else:
                    kw["noise_scale"] = noise
                    if mode in dists:
                        kw["distribution"] = dists[mode]
                    if mode == "categorical":
                        kw["n_categories"] = one
                e["intercept"] = False
                if rng.random() < 0.5:
                    kw["intercept"] = e["intercept"] = icpt
                if nonlin:
                    kw["kernel"] = kernel
                bad = [t for t in bad if t == mode]
            else:
                fn = m.nonlinear_sem_generator if nonlin else m.sem_generator
                kw["noise_std"] = noise
                if dists:
                    kw["distributions"] = dists
                if nonlin:
                    kw["kernel"] = kernel
                elif rng.random() < 0.6 or not icpt:
                    kw["intercept"] = icpt
                    e["intercept"] = icpt
                dflt = rng.choice(["continuous", "binary", "count", "categorical:3"])
                schema = {names[v]: word(v) for v in rng.sample(range(n), n)}
                if mode != "mixed" or rng.random() < 0.5:
                    dflt = word(rng.choice(range(n))) if mode == "mixed" else word(0)
                    schema = {k_: v_ for k_, v_ in schema.items() if v_ != dflt or rng.random() < 0.5}
                if rng.random() < 0.2:
                    schema["not a node"] = "binary"
                if rng.random() < 0.08:
                    e["badtype"] = True
                    if rng.random() < 0.5:
                        dflt = "unknown"
                    else:
                        schema[names[0]] = rng.choice(["unknown", "categorical", "categorical:"])
                kw.update(default_type=dflt, schema=schema)
            e["baddists"] = bad
            e["noiseless"] = noise == 0 and not nonlin
            e["determined"], e["batched"] = noise == 0, nonlin and e["n"] > 100
            e["balance"] = noise != 0
            e["zeros"] = dists.get("count") == 1
            before = repr(list(g.nodes(data=True))) + repr(list(g.edges(data=True))) + repr(sorted(map(repr, kw.get("schema", {}).items()))) + repr(sorted(map(repr, dists.items())))
            np.random.seed(rng.randrange(2 ** 31))
            with np.errstate(all="ignore"):
                k, df = guarded(lambda: fn(g, **kw))
                if k == "ok":
                    np.random.seed(rng.randrange(2 ** 31))
                    k2, again = guarded(lambda: fn(g, **kw))
                    v1 = df if e["form"] == "nodes" else df.values
                    e["reproduced"] = k2 == "ok" and bool(np.array_equal(v1, again if e["form"] == "nodes" else again.values, equal_nan=True))
            e["unchanged"] = before == repr(list(g.nodes(data=True))) + repr(list(g.edges(data=True))) + repr(sorted(map(repr, kw.get("schema", {}).items()))) + repr(sorted(map(repr, dists.items())))
            e["out"] = k
            if k == "raise":
                e["exc"] = exc(df)
                if isinstance(df, np.linalg.LinAlgError):
                    continue
            elif k == "inconclusive":
                e["why"] = df
            elif k == "ok":
                def read():
                    if e["form"] == "nodes":
                        e["cols"] = [[v, -1] for v in order]
                        arr = df
                        assert arr.shape[1] == n
                    else:
                        e["cols"] = [look.get(c, [99, 99]) for c in df.columns]
                        arr = df.values
                    units = [(1000 if c[1] == -1 and c[0] != 99 and ts[c[0]] == "continuous" else 0) for c in e["cols"]]
                    e["rows"] = [[big(x, 1000) if u else (int(x) if x == int(x) and abs(x) < 10 ** 6 else -7) for x, u in zip(row, units)] for row in arr.tolist()]
                    if any(abs(x) > 2 * 10 ** 7 for row in e["rows"] for x in row):
                        e["noiseless"] = False  # too large for exact comparison
                k2, r = guarded(read)
                if k2 != "ok":
                    e["out"] = k2 if k2 == "inconclusive" else "unreadable"
            case["ev"].append(e)
        if i % 9 == 0:
            case["ev"] += long_runs(rng, m, sm, np, blank)
        yield case, {"names": repr(names), "types": ts}


def long_runs(rng, m, sm, np, blank):
    """Moments of long samples from very small structures."""
    out = []
    N = 20000
    w = rng.choice([1, -2, 0.5])
    g = sm.StructureModel()
    g.add_edge("p", "q", weight=w)
    d = rng.choice(["gaussian", "student-t", "exponential", "gumbel", "normal"])
    sd = rng.choice([2, 5, 10, 30])
    pt = rng.choice(["continuous", "binary"])

    def note(e, fn):
        k, r = guarded(fn)
        e["out"] = k
        if k == "inconclusive":
            e["why"] = r
        out.append(e)

    shifted = rng.random() < 0.4
    e1, e2 = dict(blank, op="moments", dist=d, sd=sd, shifted=shifted), dict(blank, op="moments", dist=d, sd=10, shifted=shifted)
    data = {}

    def run():
        df = m.sem_generator(g, schema={"p": pt}, noise_std=sd / 10, n_samples=N, distributions={"continuous": d}, intercept=shifted, seed=rng.randrange(2 ** 31))
        data.update(p=df["p"].values, q=df["q"].values)
        r = data["q"] - w * data["p"]
        e1.update(mean=big(r.mean(), 1000), var=big(r.var(), 1000), corr=big(np.corrcoef(r, data["p"])[0, 1], 1000))

    def root():
        r = data["p"]
        e2.update(mean=big(r.mean(), 1000), var=big(r.var(), 1000))

    note(e1, run)
    if pt == "continuous" or shifted:
        if pt == "continuous" and out[-1]["out"] == "ok":
            note(e2, root)
    else:
        e3 = dict(blank, op="share")
        if out[-1]["out"] == "ok":
            note(e3, lambda: e3.update(count=[int(data["p"].sum()), N, 1, 2]))
    # counts
    infl = rng.choice([0, 0.05, 0.3, 0.5])
    s = rng.choice([2, 4, -2, 1, 6, -1, -4, 24, 60, 120, 300])
    g2 = sm.StructureModel()
    g2.add_edge("b", "c", weight=s / 2)
    g2.add_node("r")
    es = [dict(blank, op="rate", score=98, inflation=int(1000 * infl)), dict(blank, op="rate", score=s, inflation=int(1000 * infl)), dict(blank, op="rate", score=0, inflation=int(1000 * infl))]

    def counts():
        with np.errstate(all="ignore"):
            df = m.sem_generator(g2, schema={"b": "binary", "c": "count", "r": "count"}, n_samples=N, distributions={"count": infl}, intercept=False, seed=rng.randrange(2 ** 31))
        b, c, r = (df[x].values for x in "bcr")
        es[0]["mean"] = big(r.mean(), 1000)
        es[1]["mean"] = big(c[b == 1].mean(), 1000)
        es[2]["mean"] = big(c[b == 0].mean(), 1000)

    k, r = guarded(counts)
    for e in es:
        e["out"] = k
        if k == "inconclusive":
            e["why"] = r
    out += es
    # a binary child of a binary parent: the score is compared with noise of the given distribution and scale
    bd, bs, sg = rng.choice(["probit", "normal", "logit"]), rng.choice([0.5, 1, 2]), rng.choice([1, -1])
    g4 = sm.StructureModel()
    g4.add_edge("b", "k", weight=sg * bs)
    bin_ = [dict(blank, op="share") for _ in range(3)]

    def child():
        if rng.random() < 0.5:
            df = m.generate_binary_dataframe(g4, N, distribution=bd, noise_scale=bs, seed=rng.randrange(2 ** 31))
        else:
            df = m.sem_generator(g4, default_type="binary", n_samples=N, noise_std=bs, distributions={"binary": bd}, intercept=False, seed=rng.randrange(2 ** 31))
        b, k_ = df["b"].values, df["k"].values
        up = 731 if bd == "logit" else 841
        bin_[0]["count"] = [int(b.sum()), N, 1, 2]
        bin_[1]["count"] = [int(k_[b == 1].sum()), int((b == 1).sum()), up if sg > 0 else 1000 - up, 1000]
        bin_[2]["count"] = [int(k_[b == 0].sum()), int((b == 0).sum()), 1, 2]

    k, r = guarded(child)
    for e in bin_:
        e["out"] = k
        if k == "inconclusive":
            e["why"] = r
    out += bin_
    # a categorical child of a binary parent: the weight goes to one of the categories, and each has its own noise
    out.append(categories(rng, m, sm, np, dict(blank, op="categories")))
    out.append(smooth(rng, m, sm, np, dict(blank, op="smooth")))
    # categories are equally likely without causes
    g3 = sm.StructureModel()
    g3.add_node("k")
    card = rng.choice([2, 3, 4])
    sh = [dict(blank, op="share") for _ in range(card)]

    def cats():
        df = m.generate_categorical_dataframe(g3, N, n_categories=card, seed=rng.randrange(2 ** 31), distribution=rng.choice(["logit", "normal"]))
        for j in range(card):
            sh[j]["count"] = [int(df["k_%d" % j].values.sum()), N, 1, card]

    k, r = guarded(cats)
    for e in sh:
        e["out"] = k
        if k == "inconclusive":
            e["why"] = r
    return out + sh


def categories(rng, m, sm, np, e):
    N = 20000
    d, sg, sd, card = rng.choice(["logit", "gumbel", "normal", "probit"]), rng.choice([1, -1]), rng.choice([0.5, 1, 2]), rng.choice([2, 3, 4])
    g = sm.StructureModel()
    g.add_edge("b", "k", weight=sg * sd)
    e.update(dist=d, score=sg)

    def run():
        df = m.sem_generator(g, schema={"b": "binary", "k": "categorical:%d" % card}, n_samples=N, noise_std=sd, distributions={"categorical": d}, intercept=False, seed=rng.randrange(2 ** 31))
        b = df["b"].values
        e["groups"] = [[int(df["k_%d" % j].values[b == x].sum()) for j in range(card)] for x in (0, 1)]

    k, r = guarded(run)
    e["out"] = k
    if k == "inconclusive":
        e["why"] = r
    return e


def smooth(rng, m, sm, np, e):
    """A continuous child of a continuous parent, nonlinear without noise: neighbours have similar values."""
    n = rng.choice([80, 100, 101, 150, 260, 420])
    g = sm.StructureModel()
    g.add_edge("a", "b", weight=2)
    def run():
        kw = dict(kernel=stubs.kernel(rng.choice([0.5, 1.0, 2.0])), n_samples=n, seed=rng.randrange(2 ** 31))
        if rng.random() < 0.5:
            df = m.nonlinear_sem_generator(g, default_type="continuous", noise_std=0, **kw)
        else:
            df = m.generate_continuous_dataframe(g, noise_scale=0, **kw)
        v = df["b"].values[np.argsort(df["a"].values)]
        e["groups"].append([big(np.median(np.abs(np.diff(v))), 1000), big(np.median(np.abs(v - np.median(v))), 1000)])

    with np.errstate(all="ignore"):
        k, r = guarded(run)
    e["out"] = k
    if k == "inconclusive":
        e["why"] = r
    return e


# ------------------------------------------------------------------ C29
def C29(rng, shard, nshards, tier):
    import numpy as np

    m = stubs.load("causalnex.structure.data_generators")
    sm = stubs.structure()
    for i in range(30 if tier != "thorough" else 600):
        n, p = rng.choice([1, 2, 3, 4, 11]) if rng.random() < 0.9 else 3, rng.choice([0, 1, 1, 2, 2, 3])
        if n == 11:
            p = min(p, 2)
        order = rng.sample(range(n), n)
        room = {v: rng.choice([2, 3, 4]) for v in range(n)}  # quarters: the sum of the absolute weights stays at most 1
        now, past = [], []
        cand = [(a, 0, b) for ib, b in enumerate(order) for a in order[:ib]] + [(a, l, b) for l in range(1, p + 1) for a in range(n) for b in range(n)]
        rng.shuffle(cand)
        for a, l, b in cand:
            if room[b] > 0 and rng.random() < 0.6:
                w = rng.choice([1, -1, 2, -2, 1])
                if abs(w) <= room[b]:
                    room[b] -= abs(w)
                    (now.append([a, b, w]) if l == 0 else past.append([a, l, b, w]))
        g = sm.StructureModel()
        names = [str(v) for v in range(n)] if n == 11 or rng.random() < 0.5 else rng.sample(rng.choice([["a", "b", "c", "d"], ["a", "a_b", "a1", "A", "lag", "ab", "1", "10"]]), n)
        node = lambda v, l: "%s_lag%d" % (names[v], l)  # noqa: E731
        slots = [(v, l) for v in range(n) for l in range(p + 1)]
        if rng.random() < 0.3:
            # a graph without some of the variables and lags that nothing depends on
            used = {(a, 0) for a, b, w in now} | {(b, 0) for a, b, w in now} | {(a, l) for a, l, b, w in past} | {(b, 0) for a, l, b, w in past}
            keep = rng.choice([0, 0.5])
            slots = [x for x in slots if x in used or rng.random() < keep] or slots
        rng.shuffle(slots)
        look = {node(v, l): [v, l] for v, l in slots}
        g.add_nodes_from(node(v, l) for v, l in slots)
        g.add_weighted_edges_from([(node(a, 0), node(b, 0), w / 4) for a, b, w in now] + [(node(a, l), node(b, 0), w / 4) for a, l, b, w in past])
        there = [v for v in range(n) if any(x[0] == v for x in slots)]
        case = {"n": n, "p": p, "now": now, "past": past, "have": [list(x) for x in slots], "ev": []}
        blank = {"exc": "", "unchanged": True, "kind": "linear-gauss", "n": 0, "cols": [], "rows": [], "drift": [0] * n, "noiseless": False, "names": True, "lagged": [], "edges": [], "warned": False,
                 "mean": 0, "var": 0, "sd": 10}

        def read(e, df):
            e["cols"] = [look.get(c, [99, 99]) for c in df.columns]
            e["rows"] = [[big(x, 1000) for x in row] for row in df.values.tolist()]

        for _ in range(rng.randint(1, 3)):
            np.random.seed(rng.randrange(2 ** 31))
            kind = rng.choice(["linear-gauss", "linear-exp", "linear-gumbel"])
            noise = rng.choice([0, 0, 0.5, 1])
            e = dict(blank, op="series", kind=kind, n=rng.choice([1, 2, 5, 12]), noiseless=noise == 0)
            kw = {"n_samples": e["n"], "sem_type": kind, "noise_scale": noise, "burn_in": rng.choice([0, 0, 1, 5])}
            if noise == 0 or rng.random() < 0.5:
                drift = [rng.choice([0, 1, -2, 3, 5]) for _ in range(n)]
                e["drift"] = [1000 * x for x in drift]
                # the drift of the variables in the order of the columns of the result
                kw["drift"] = np.array([float(drift[v]) for v in sorted(there, key=lambda v: node(v, 0))])
            if rng.random() < 0.12:
                kw["sem_type"] = e["kind"] = rng.choice(["gauss", "", "linear_gauss", "linear-exponential"])
            before = repr(sorted(map(repr, g.edges(data=True)))) + repr(kw.get("drift", ""))
            k, df = guarded(lambda: m.generate_dataframe_dynamic(g, **kw))
            e["unchanged"] = before == repr(sorted(map(repr, g.edges(data=True)))) + repr(kw.get("drift", ""))
            e["out"] = k
            if k == "raise":
                e["exc"] = exc(df)
            elif k == "inconclusive":
                e["why"] = df
            else:
                k2, r = guarded(lambda: read(e, df))
                if k2 != "ok":
                    e["out"] = k2 if k2 == "inconclusive" else "unreadable"
            case["ev"].append(e)
        if i % 6 == 0:
            case["ev"].append(noise_moments(rng, m, sm, np, blank))
        yield case, {}
        if i % 3 == 0:
            yield stationary(rng, m, np, blank), {}


def noise_moments(rng, m, sm, np, blank):
    kind, sd = rng.choice(["linear-gauss", "linear-exp", "linear-gumbel"]), rng.choice([5, 10, 20])
    g = sm.StructureModel()
    w = rng.choice([0.5, -0.5])
    g.add_nodes_from(["0_lag0", "0_lag1"])
    g.add_weighted_edges_from([("0_lag1", "0_lag0", w)])
    e = dict(blank, op="moments", kind=kind, sd=sd)
    np.random.seed(rng.randrange(2 ** 31))

    def run():
        df = m.generate_dataframe_dynamic(g, n_samples=8000, sem_type=kind, noise_scale=sd / 10)
        r = df["0_lag0"].values - w * df["0_lag1"].values
        e.update(mean=big(r.mean(), 1000), var=big(r.var(), 1000))

    k, r = guarded(run)
    e["out"] = k
    if k == "inconclusive":
        e["why"] = r
    return e


def stationary(rng, m, np, blank):
    n, p = rng.choice([2, 3, 5]), rng.choice([1, 1, 2, 3])
    ns = rng.choice([3, 10, 30])
    np.random.seed(rng.randrange(2 ** 31))
    lo, hi = rng.choice([(0.1, 0.2), (0.3, 0.5), (0.5, 0.5), (1, 2)])
    wild = {"noise_scale": rng.choice([250, 400, 600]), "n_samples": rng.choice([10, 30])} if rng.random() < 0.4 else {}
    ns = wild.pop("n_samples", ns)
    if rng.random() < 0.15:
        # beyond the range of numbers
        lo = hi = 1000
        wild["graph_type_inter"] = "full"
    e = dict(blank, op="stationary", n=ns, drift=[0] * n)
    case = {"n": n, "p": p, "now": [], "past": [], "have": [[v, l] for v in range(n) for l in range(p + 1)], "ev": [e]}

    def run():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            g, df, intra, inter = m.gen_stationary_dyn_net_and_df(num_nodes=n, n_samples=ns, p=p, degree_intra=rng.choice([1, 2]), degree_inter=rng.choice([1, 2]), w_min_inter=lo, w_max_inter=hi,
                                                                w_min_intra=lo, w_max_intra=hi, max_data_gen_trials=rng.choice([2, 5, 20]), sem_type=rng.choice(["linear-gauss", "linear-exp"]), **wild)
        e["warned"] = any("Could not simulate" in str(w.message) for w in ws)
        e["cols"] = [lab(c) for c in df.columns]
        e["rows"] = [[big(x, 1000) for x in row] for row in df.values.tolist()]
        e["names"] = sorted(map(str, intra)) == sorted("%d_lag0" % v for v in range(n)) and sorted(map(str, inter)) == sorted("%d_lag%d" % (v, l) for v in range(n) for l in range(1, p + 1)) \
            and list(df.index) == list(range(ns))
        e["lagged"] = [lab(x) for x in g.nodes]
        e["edges"] = [lab(u) + lab(v) for u, v in g.edges]

    k, r = guarded(run, 60)
    e["out"] = k
    if k == "inconclusive":
        e["why"] = r
    if k == "raise":
        e["exc"] = exc(r)
    return case
