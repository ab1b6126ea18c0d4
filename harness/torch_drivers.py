"""Drivers for the learners on torch (C32, C33)."""
import copy
import json
import logging
import os
import warnings

import stubs
from learn_drivers import writable
from worker import guarded

U = 10000
NAME = {"DistTypeContinuous": "cont", "DistTypeBinary": "bin", "DistTypeCategorical": "cat", "DistTypeOrdinal": "ord", "DistTypePoisson": "poiss"}


def mods():
    writable()
    return stubs.load("causalnex.structure.pytorch.notears"), stubs.pandas()


class Ear(logging.Handler):
    heard = False

    def emit(self, record):
        if "onverge" in record.getMessage():
            self.heard = True


def mixed(rng, d, n, only=None, wide=4):
    """Columns of several types, each depending on some earlier ones (in a random order)."""
    import math

    kinds = [rng.choice(only or ["cont", "cont", "bin", "cat", "ord", "poiss"]) for _ in range(d)]
    vals = [sorted(rng.sample([-4, -1, 0, 1, 2, 3, 5, 8], rng.randint(2, wide))) if k in ("cat", "ord") else None for k in kinds]
    order = list(range(d))
    rng.shuffle(order)
    G = {(a, b): rng.choice([-1, -0.5, 0.5, 1]) for i, a in enumerate(order) for b in order[i + 1:] if rng.random() < 0.6}
    X = []
    for _ in range(n):
        x, z = [0] * d, [0.0] * d
        for b in order:
            t = sum(G.get((a, b), 0) * z[a] for a in range(d)) + rng.gauss(0, 1)
            t = max(-3, min(3, t))
            if kinds[b] == "cont":
                x[b] = int(round(2 * t))
            elif kinds[b] == "bin":
                x[b] = int(t + rng.gauss(0, 0.5) > 0)
            elif kinds[b] == "poiss":
                x[b] = min(8, int(math.exp(t / 2) + rng.random()))
            else:
                k = len(vals[b])
                x[b] = vals[b][max(0, min(k - 1, int((t + 2) / 4 * k)))]
            z[b] = t
        X.append(x)
    for j in range(d):  # every value occurs
        want = vals[j] if vals[j] else [0, 1] if kinds[j] == "bin" else []
        for v in want:
            if not any(r[j] == v for r in X):
                for i in range(20):
                    r = rng.choice(X)
                    if sum(q[j] == r[j] for q in X) > 1:
                        r[j] = v
                        break
    ok = all(len({r[j] for r in X}) > 1 for j in range(d)) and all({r[j] for r in X} == set(vals[j]) for j in range(d) if vals[j])
    return (kinds, X, vals) if ok else mixed(rng, d, n, only, wide)


def names(rng, d):
    pools = [["a", "b", "c", "d", "e", "f"], list(range(3, 9)), list(range(6)), [2, 0, 1, 4, 3, 5], ["a_b", "0", "z", "lag1_", "B", "x y"], ["x1", "x2", "x3", "y1", "y2", "z"], ["x", "x1", "x2", "x11", "y", "y1"]]
    return rng.sample(rng.choice(pools)[:max(d, 4)], d)


def label(name, k):
    return "{}{}".format(name, k) if k else name


def constraints(rng, d, ordered):
    order = list(range(d))
    rng.shuffle(order)
    tE = [(order[b], order[a]) for a in range(d) for b in range(a + 1, d)] if ordered else []
    if not ordered:
        # at most one pair of columns stays free in both directions: cycles make the optimisation slow
        free = tuple(rng.sample(order, 2)) if d > 1 else ()
        tE = [(order[b], order[a]) for a in range(d) for b in range(a + 1, d) if {order[a], order[b]} != set(free)]
    for i in range(d):
        for j in range(d):
            if i != j and (i, j) not in tE and rng.random() < 0.12:
                tE.append((i, j))
    tP = rng.sample(range(d), 1) if rng.random() < 0.25 else []
    tC = rng.sample(range(d), rng.choice([1, 1, 2]) if d > 2 else 1) if rng.random() < 0.25 else []
    if rng.random() < 0.1:
        tE.append((0, 0))
    rng.shuffle(tE)
    return tE, tP, tC


def places(kinds, X, schema):
    """Column and category of every column of the expanded data: further categories come last, in the order of the schema."""
    out = [(j, 0) for j in range(len(kinds))]
    for j in schema if schema is not None else []:
        if kinds[j] == "cat":
            out += [(j, k) for k in range(1, len({r[j] for r in X}))]
    return out


def learn(rng, e, kinds, X, cols, schema):
    import numpy as np

    nt, pd = mods()
    d, face, bad = len(kinds), e["face"], e["bad"]
    lab = (lambda i: cols[i]) if face == "pandas" else (lambda i: i)
    kw = {}
    for k, v in (("tabu_edges", [(lab(i), lab(j)) for i, j in e["_tE"]]), ("tabu_parent_nodes", [lab(i) for i in e["_tP"]]), ("tabu_child_nodes", [lab(i) for i in e["_tC"]])):
        if v or rng.random() < 0.3:
            kw[k] = v if v or rng.random() < 0.5 else None
    if e["t"] or rng.random() < 0.3:
        kw["w_threshold"] = e["t"] / U if e["t"] or rng.random() < 0.5 else None
    if e["ridge"] or rng.random() < 0.3:
        kw["ridge_beta"] = e["ridge"] / 100
    if e["lasso"] or rng.random() < 0.3:
        kw["lasso_beta"] = e["lasso"] / 100
    if e["bias"] or rng.random() < 0.5:
        kw["use_bias"] = e["bias"]
    if e["hidden"]:
        kw["hidden_layer_units"] = rng.choice([[2], [1], [3], [2, 2], (2,), (3, 2), range(2, 4), np.array([2])])
        if rng.random() < 0.3:
            kw["nonlinear_clamp"] = 0.05
    elif rng.random() < 0.3:
        kw["hidden_layer_units"] = rng.choice([[], [0], None, (), (0,), range(0), np.array([], dtype=int)])
    if rng.random() < 0.2:
        kw["max_iter"] = rng.choice([100, 150])
    sch = None if schema is None else {lab(j): kinds[j] for j in schema}
    A = np.array(X, dtype=rng.choice([float, int]) if not bad else float).reshape(len(X), d)
    if bad in ("nan", "inf"):
        A[rng.randrange(len(A)), rng.randrange(d)] = float(bad) * rng.choice([1, -1])
    if bad == "negative":
        A[rng.randrange(len(A)), kinds.index("poiss")] = -1
    if bad == "empty":
        A = A[:0]
    if bad == "short":
        sch.pop(rng.choice(list(sch)))
    if bad == "long":
        sch[d] = "cont"
    if face == "numpy":
        arg, fn = A, nt.from_numpy
    else:
        arg, fn = pd.DataFrame({cols[i]: A[:, i] for i in range(d)}, columns=cols), nt.from_pandas
        if rng.random() < 0.3 and len(A):
            arg = pd.DataFrame({cols[i]: A[:, i] for i in range(d)}, columns=cols, index=np.arange(5, 5 + len(A))[::-1])
        if bad == "text":
            arg[cols[rng.randrange(d)]] = ["t%d" % i for i in range(len(A))]

    def snap():
        return repr([(arg.columns.tolist(), arg.index.tolist(), arg.values.tolist()) if face == "pandas" else arg.tolist(), kw, sch])

    before = snap()
    ear, root = Ear(), logging.getLogger()
    level = root.level
    root.addHandler(ear)
    root.setLevel(logging.WARNING)
    pos = rng.random() < 0.5
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out, r = guarded(lambda: fn(arg, sch, **kw) if pos else fn(arg, dist_type_schema=sch, **kw), 200)
    finally:
        root.removeHandler(ear)
        root.setLevel(level)
    e.update(out=out, exc="", unchanged=snap() == before, converged=not ear.heard, nodes=[], edges=[], flat=[], flatnodes=[], strange="")
    if out == "raise":
        e["exc"] = "ValueError" if isinstance(r, ValueError) else type(r).__name__
    if out != "ok":
        return None
    if bad:
        return None
    at = places(kinds, X, schema)
    where = {(lab(j) if k == 0 else label(lab(j), k)) if face == "pandas" else i: (j, k) for i, (j, k) in enumerate(at)}
    if len(where) < len(at):
        e["strange"] = "names-of-nodes-clash"
        return None

    def read(x):
        for n, (j, k) in where.items():
            if n == x and (type(n) is str) == (type(x) is str):
                return [j + 1, k]
        return [99, 99]

    def unit(w):
        try:
            w = float(w)
        except (TypeError, ValueError):
            w = float("nan")
        if not abs(w) < 20000:
            e["strange"] = "weight-is-no-number"
            w = 0
        return int(round(w * U))

    if type(r) is not stubs.structure().StructureModel or type(r.graph.get("graph_collapsed")) is not stubs.structure().StructureModel:
        e["strange"] = "not-a-structure-model"
        return None
    for x, a in r.nodes(data=True):
        t = a.get("dist_type")
        b = a.get("bias", 0)
        e["nodes"].append(read(x) + [0 if b is None or e["hidden"] else unit(b), NAME.get(type(t).__name__, "none"), int(getattr(t, "idx", -9)) + 1, b is not None])
    for u, v, a in r.edges(data=True):
        w, m = unit(a.get("weight")), unit(a.get("mean_effect"))
        e["edges"].append(read(u) + read(v) + [w, m, str(a.get("origin"))])
    g = r.graph["graph_collapsed"]
    e["flatnodes"] = [read(x)[0] if read(x)[1] == 0 else 99 for x in g.nodes]
    e["flat"] = [[read(u)[0], read(v)[0], unit(w)] for u, v, w in g.edges(data="weight")]
    return r


def rebuild(rng, r, kinds, X, vals, schema):
    import numpy as np

    n = rng.randint(1, 6)
    rows = [[rng.choice(vals[j]) if vals[j] else rng.choice([0, 1]) if kinds[j] == "bin" else rng.randint(0, 6) if kinds[j] == "poiss" else rng.randint(-5, 5) for j in range(len(kinds))]
            if rng.random() < 0.6 else list(rng.choice(X)) for _ in range(n)]
    A = np.array(rows, dtype=rng.choice([float, int]))
    at = places(kinds, X, schema)
    ords = [j for j in range(len(kinds)) if kinds[j] == "ord"]
    e = {"op": "rebuild", "rows": rows, "of": 0, "places": [[j + 1, k] for j, k in at], "res": [], "exc": ""}
    learner = r.graph["structure_learner"]
    if ords:
        j = rng.choice(ords)
        e["of"] = j + 1
        t = [a["dist_type"] for _, a in r.nodes(data=True) if getattr(a["dist_type"], "idx", None) == j]
        fn = lambda: t[0].get_columns(learner.reconstruct_data(A, dist_types=[t[0]]))  # noqa
    else:
        fn = lambda: learner.reconstruct_data(A)  # noqa
    before = A.tolist()
    out, res = guarded(fn, 60)
    e.update(out=out, unchanged=A.tolist() == before)
    if out == "raise":
        e["exc"] = type(res).__name__
    if out == "ok":
        res = np.asarray(res, dtype=float)
        if res.ndim != 2 or len(res) != n or not np.isfinite(res).all():
            e["out"] = "misshapen"
        else:
            e["res"] = [[int(round(min(1e5, max(-1e5, v)) * U)) for v in q] for q in res]
    return e


def conditioned(kinds, X):
    """Neither nearly the same column twice nor tiny classes: otherwise no optimum is determined well."""
    import numpy as np

    at = places(kinds, X, range(len(kinds)))
    cols = []
    for j, k in at:
        vs = sorted({r[j] for r in X})
        cols.append([float(r[j] == vs[k]) if kinds[j] == "cat" else float(vs.index(r[j])) if kinds[j] == "ord" else float(r[j]) for r in X])
    G = np.array(cols).T
    G = (G - G.mean(0))
    G = G / np.maximum(G.std(0), 1e-9)
    drop = [i for i, (j, k) in enumerate(at) if not (kinds[j] == "cat" and k == 0)]
    G = G[:, drop]
    return len(drop) == 0 or np.linalg.cond(G.T @ G) < 80


def case(rng, tier, optimum):
    hidden = not optimum and rng.random() < 0.25
    ordered = optimum or hidden or rng.random() < 0.6
    d = rng.choice([2, 3] if hidden or not ordered else [1, 2, 3, 3, 4, 4, 5])
    n = rng.randint(10, 14) if hidden else rng.randint(14, 34)
    rare = optimum and rng.random() < 0.12
    if rare:
        d, n = rng.choice([1, 2, 2]), rng.randint(42, 60)
    kinds, X, vals = mixed(rng, d, n, only=["cont", "ord", "ord", "bin"] if rare else ["cont"] if rng.random() < 0.15 else ["cont", "cat"] if rng.random() < 0.15 else None, wide=3 if not ordered else 4)
    if rare:  # a class of a single row, at one end
        for j in range(d):
            if kinds[j] == "ord" and len(vals[j]) > 2:
                v, w = rng.choice([vals[j][:2], vals[j][:-3:-1]])
                at = [r for r in X if r[j] == v]
                for r in at[1:]:
                    r[j] = w
    if optimum and not conditioned(kinds, X):
        return case(rng, tier, optimum)
    large = optimum and "poiss" in kinds and rng.random() < 0.4
    if large:  # counts in the hundreds, of a column that is no cause
        j, c = rng.choice([j for j in range(d) if kinds[j] == "poiss"]), rng.choice([15, 40, 100, 200])
        for r in X:
            r[j] = max(0, int(c * (1 + r[j] / 8) + rng.gauss(0, 1) * c ** 0.5))
    cols = names(rng, d)
    schema = None if set(kinds) == {"cont"} and rng.random() < 0.7 else rng.sample(range(d), d)
    tE, tP, tC = constraints(rng, d, ordered)
    if large and j not in tP:
        tP.append(j)
    plain = set(kinds) == {"cont"}
    base = {"op": "learn", "ridge": rng.choice([0, 10, 100] if plain else [20, 50, 100, 300]), "lasso": 0 if rng.random() < 0.6 or optimum and not plain and rng.random() < 0.8 else rng.choice([100, 200, 400] if optimum else [5, 20, 100]),
            "bias": rng.random() < 0.7, "_tE": tE, "_tP": tP, "_tC": tC, "tE": [[i + 1, j + 1] for i, j in tE], "tP": [i + 1 for i in tP], "tC": [i + 1 for i in tC],
            "hidden": hidden, "valid": True, "bad": "", "heavy": True, "exact": 10000, "near": 30}
    if optimum and plain and rng.random() < 0.4:
        base["lasso"] = rng.choice([100, 500, 2000, 5000])
    ev = []

    def go(**kw):
        e = dict(copy.deepcopy(base), **kw)
        # the l1 term has kinks, which the optimiser does not handle well
        e["exact"], e["near"] = (10000, 30) if e["lasso"] == 0 else (6, 20000)
        if large:
            e["exact"], e["near"] = 2, 20000
        r = learn(rng, e, kinds, X, cols, schema)
        for k in ("_tE", "_tP", "_tC", "bad"):
            e.pop(k)
        ev.append(e)
        return r

    faces = ["numpy", "pandas"]
    rng.shuffle(faces)
    named = [label(cols[j], k) for j, k in places(kinds, X, schema)]
    clash = len(set(named)) < len(named)
    fine = (lambda f: not (clash and f == "pandas"))
    r = go(face=faces[0], t=0, **({} if fine(faces[0]) else {"valid": False}))
    if optimum:
        for _ in range(2):
            if r is not None and rng.random() < 0.7:
                ev.append(rebuild(rng, r, kinds, X, vals, schema))
        if rng.random() < 0.5:
            r = go(face=faces[1], t=0, **({} if fine(faces[1]) else {"valid": False}))
            if r is not None:
                ev.append(rebuild(rng, r, kinds, X, vals, schema))
        if rng.random() < 0.3:
            base.update(ridge=rng.choice([30, 200]), bias=not base["bias"])
            r = go(face=faces[0], t=0, **({} if fine(faces[0]) else {"valid": False}))
            if r is not None:
                ev.append(rebuild(rng, r, kinds, X, vals, schema))
    else:
        if not hidden:
            go(face=faces[1], t=rng.choice([500, 3000, 8000]), **({} if fine(faces[1]) else {"valid": False}))
        if rng.random() < 0.5:
            face = rng.choice(faces)
            bad = ["nan", "inf", "empty"] + (["negative"] if "poiss" in kinds else []) + (["text"] if face == "pandas" else []) + (["short"] if schema is not None else []) + (["long"] if schema is not None and face == "numpy" else [])
            go(face=face, t=0, bad=rng.choice(bad), valid=False)
    return {"ev": ev, "optimum": optimum, "kinds": kinds, "X": X}, {"columns": repr(cols), "schema": repr(schema)}


def replayed(rng, q):
    """A request of ExpansionModel: columns of three, one and two nodes."""
    kinds = ["cat", rng.choice(["cont", "cont", "bin", "ord"]), "cat"]
    vals = [[0, 1, 2], [0, 1, 3] if kinds[1] == "ord" else None, rng.choice([[0, 1], [-2, 7]])]
    while True:
        X = [[rng.choice(vals[0]), rng.choice(vals[1] or ([0, 1] if kinds[1] == "bin" else range(-4, 5))), rng.choice(vals[2])] for _ in range(14)]
        if all(set(r[j] for r in X) == set(vals[j]) for j in range(3) if vals[j]) and len({r[1] for r in X}) > 1:
            break
    cols, schema = names(rng, 3), rng.sample(range(3), 3)
    if len({label(cols[j], k) for j, k in places(kinds, X, schema)}) < 6:
        cols = ["a", "b", "c"]
    e = {"op": "learn", "ridge": 50, "lasso": 0, "bias": rng.random() < 0.5, "tE": q["tE"], "tP": q["tP"], "tC": q["tC"], "hidden": False, "valid": True,
         "_tE": [(i - 1, j - 1) for i, j in q["tE"]], "_tP": [i - 1 for i in q["tP"]], "_tC": [i - 1 for i in q["tC"]],
         "bad": "", "heavy": True, "exact": 10000, "near": 30, "face": rng.choice(["numpy", "pandas"]), "t": 0}
    learn(rng, e, kinds, X, cols, schema)
    for k in ("_tE", "_tP", "_tC", "bad"):
        e.pop(k)
    return {"ev": [e], "optimum": False, "kinds": kinds, "X": X}, {"columns": repr(cols), "schema": repr(schema)}


def C32(rng, shard, nshards, tier):
    reqs = json.load(open(os.environ["VERIF_GEN"]))[shard::nshards]
    # those that leave an order are fast
    reqs = [q for q in reqs if len(q["tE"]) >= (3 if tier != "thorough" else 0)]
    rng.shuffle(reqs)
    for q in reqs[:10 if tier != "thorough" else 150]:
        yield replayed(rng, q)
    for _ in range(20 if tier != "thorough" else 160):
        yield case(rng, tier, False)


def C33(rng, shard, nshards, tier):
    for _ in range(60 if tier != "thorough" else 200):
        yield case(rng, tier, True)
