"""Drivers for the structure learners (C20, C21)."""
import copy
import warnings

import stubs
from worker import guarded

U = 10000


def writable():
    """The optimiser is asked for more precision than it gives by default: otherwise L-BFGS-B now and then stops early,
    which says nothing about the problem it was given.  (And recent versions of scipy return a read-only array when
    every variable is fixed, those that causalnex asks for do not.)"""
    import numpy as np
    import scipy.optimize as so

    if getattr(so.minimize, "_verif", False):
        return
    plain = so.minimize

    def minimize(*a, **kw):
        if kw.get("method") == "L-BFGS-B" and kw.get("tol") is None:
            kw["options"] = {"ftol": 1e-15, "gtol": 1e-9, **(kw.get("options") or {})}
        r = plain(*a, **kw)
        if not r.x.flags.writeable:
            r.x = np.array(r.x)
        return r

    minimize._verif = True
    so.minimize = minimize


def mods():
    writable()
    return stubs.load("causalnex.structure.notears"), stubs.load("causalnex.structure.dynotears"), stubs.pandas()


def sem(rng, d, n, order, dens=0.6):
    """Integer data of a linear model along the given order."""
    W = {}
    for a in range(d):
        for b in range(a + 1, d):
            if rng.random() < dens:
                W[order[a], order[b]] = rng.choice([-1.5, -1, -0.75, 0.5, 0.75, 1, 1.5, 2])
    rows = []
    for _ in range(n):
        x = [0] * d
        for b in order:
            x[b] = int(round(sum(W.get((a, b), 0) * x[a] for a in range(d)) + rng.gauss(0, rng.choice([2, 3]))))
        rows.append(x)
    return rows


def series(rng, d, p, n):
    """Time series with integer values, as one list of rows."""
    order = list(range(d))
    rng.shuffle(order)
    A = {(l, i, j): rng.choice([-0.6, 0.4, 0.5, 0.7]) for l in range(1, p + 1) for i in range(d) for j in range(d) if rng.random() < 0.4 / p}
    W = {(order[a], order[b]): rng.choice([-1, 0.5, 1]) for a in range(d) for b in range(a + 1, d) if rng.random() < 0.5}
    rows = []
    for t in range(n):
        x = [0] * d
        for j in order:
            v = rng.gauss(0, 3) + sum(W.get((i, j), 0) * x[i] for i in range(d))
            v += sum(A.get((l, i, j), 0) * rows[t - l][i] for l in range(1, p + 1) if t - l >= 0 for i in range(d))
            x[j] = max(-12, min(12, int(round(v))))
        rows.append(x)
    return order, rows


def windows(rows, p):
    return [[x for l in range(p + 1) for x in rows[t - l]] for t in range(p, len(rows))]


def constraints(rng, d, p, order, ordered):
    tE = []
    if ordered:
        pos = {v: k for k, v in enumerate(order)}
        tE += [(0, i, j) for i in range(d) for j in range(d) if pos[i] > pos[j]]
    for l in range(p + 1):
        for i in range(d):
            for j in range(d):
                if (i != j or l) and (l, i, j) not in tE and rng.random() < 0.12:
                    tE.append((l, i, j))
    tP = rng.sample(range(d), 1) if rng.random() < 0.25 else []
    tC = rng.sample(range(d), 1) if rng.random() < 0.25 else []
    if d > 3 and rng.random() < 0.1:
        tP, tC = rng.sample(range(d), 2), rng.sample(range(d), 2)
    rng.shuffle(tE)
    return tE, tP, tC


def names(rng, d):
    pools = [["a", "b", "c", "d", "e", "f"], ["x%d" % i for i in range(9)], list(range(5, 14)), list(range(9)), [3, 1, 4, 0, 2, 9, 5], ["a_b", "0", "1", "2", "lag1", "z"]]
    return rng.sample(rng.choice(pools), d)


def maybe(rng, xs):
    return xs if xs or rng.random() < 0.3 else None


def learn(rng, e, Z, cols, order, form):
    """One call; e has the request, the result is added."""
    import numpy as np

    nt, dt, pd = mods()
    d, p, kind, face = e["d"], e["p"], e["kind"], e["face"]
    stat = kind != "dynotears"
    lab = (lambda i: cols[i]) if face == "pandas" else (lambda i: i)
    tE = [(lab(i), lab(j)) if stat else (l, lab(i), lab(j)) for l, i, j in e["_tE"]]
    kw = {}
    for k, v in (("tabu_edges", tE), ("tabu_parent_nodes", [lab(i) for i in e["_tP"]]), ("tabu_child_nodes", [lab(i) for i in e["_tC"]])):
        v = maybe(rng, v)
        if v is not None or rng.random() < 0.5:
            kw[k] = v
    if e["t"] or rng.random() < 0.3:
        kw["w_threshold"] = e["t"] / U
    if kind == "lasso":
        kw["beta"] = e["penW"] / 100
    if kind == "dynotears":
        kw["lambda_w"], kw["lambda_a"] = e["penW"] / 100, e["penA"] / 100
    if e["iter"]:
        kw["max_iter"] = e["iter"]
    A = np.array(Z, dtype=rng.choice([float, int]) if e["bad"] == "" else float).reshape(len(Z), d * (p + 1))
    if e["bad"] in ("nan", "inf"):
        A[rng.randrange(len(A)), rng.randrange(d)] = float(e["bad"]) * rng.choice([1, -1])
    args = []
    if face == "numpy":
        args = [A] if stat else [A[:, :d].copy(), A[:, d:].copy()]
        if e["bad"] == "rows":
            args[1] = args[1][:-1]
        if e["bad"] == "cols":
            args[1] = np.hstack([args[1], args[1][:, :1]])
        if e["bad"] == "nothing":
            args[0] = args[0][:0]
        if e["bad"] == "nolags":
            args[1] = args[1][:0]
        fn = {"notears": nt.from_numpy, "lasso": nt.from_numpy_lasso, "dynotears": dt.from_numpy_dynamic}[kind]
    else:
        fn = {"notears": nt.from_pandas, "lasso": nt.from_pandas_lasso, "dynotears": dt.from_pandas_dynamic}[kind]
        if stat:
            df = pd.DataFrame({cols[i]: A[:, i] for i in range(d)}, columns=cols)
            if e["bad"] == "text":
                df[cols[rng.randrange(d)]] = ["t%d" % i for i in range(len(A))]
            args = [df]
        else:
            fs = []
            for start, rows in form:
                R = np.array(rows, dtype=A.dtype)
                fs.append(pd.DataFrame({cols[i]: R[:, i] for i in range(d)}, index=np.arange(start, start + len(rows)), columns=cols))
            args = [fs if len(fs) > 1 or rng.random() < 0.5 else fs[0]]
            kw["p"] = p
            if e["bad"] == "text":
                fs[-1][cols[rng.randrange(d)]] = ["t%d" % i for i in range(len(fs[-1]))]

    def snap():
        return repr([[(f.columns.tolist(), f.index.tolist(), f.values.tolist()) for f in (x if isinstance(x, list) else [x])] if face == "pandas" else x.tolist() for x in args] + [kw])

    before = snap()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        kind_, r = guarded(lambda: fn(*args, **kw), 120)
        e["warned"] = any("onverge" in str(w.message) for w in ws)
    e["out"], e["exc"] = kind_, ""
    if kind_ == "raise":
        e["exc"] = "ValueError" if isinstance(r, ValueError) else type(r).__name__
    e["unchanged"] = snap() == before
    e["nodes"], e["edges"], e["strange"] = [], [], ""
    if kind_ != "ok":
        return e

    def read(x):
        if stat:
            for i in range(d):
                if type(lab(i)) is type(x) and lab(i) == x or not isinstance(x, (str, int)) and x == lab(i):
                    return i + 1, 0
            return 99, 0
        for i in range(d):
            for l in range(p + 1):
                if x == "%s_lag%d" % (lab(i), l):
                    return i + 1, l
        return 99, 99

    if type(r) is not stubs.structure().StructureModel:
        e["strange"] = "not-a-structure-model"
        return e
    e["nodes"] = [list(read(x)) for x in r.nodes]
    for u, v, a in r.edges(data=True):
        (i, l), (j, m) = read(u), read(v)
        w = a.get("weight")
        try:
            w = float(w)
        except TypeError:
            w = float("nan")
        if not abs(w) < 20000:
            e["strange"] = "weight-is-no-number"
            w = 0
        if w == 0:
            e["strange"] = "edge-of-weight-zero"
        e["edges"].append([i, l, j, int(round(w * U)), m, str(a.get("origin"))])
    return e


def case(rng, tier, ordered, optimum):
    kind = rng.choice(["notears", "lasso", "dynotears"])
    p = rng.choice([1, 1, 2, 3]) if kind == "dynotears" else 0
    d = rng.choice([2, 3, 3, 4] if kind == "dynotears" else [1, 2, 3, 3, 4, 5])
    if ordered is False:
        d = min(max(d, 2), 3 if kind == "dynotears" else 4)
    n = rng.randint(d * (p + 1) + 6, 24 + 6 * p)
    form = None
    if kind == "dynotears":
        order, rows = series(rng, d, p, n + p)
        form = [(rng.choice([0, 5, 100]), rows)]
        if rng.random() < 0.4:
            k = rng.randint(p + 1, n - 1) if n > p + 2 else p + 1
            form = [(0, rows[:k]), (rng.choice([0, k, k + 3]), rows[k:])]
        Z = [w for _, rs in form for w in windows(rs, p)]
    else:
        order = list(range(d))
        rng.shuffle(order)
        Z = sem(rng, d, n, order)
        m = max(abs(x) for r in Z for x in r)
        if m > 25:
            Z = [[int(x * 25 / m) for x in r] for r in Z]
    import numpy as np

    G = np.array(Z, dtype=float)
    if np.linalg.cond(G.T @ G) > 60:
        return case(rng, tier, ordered, optimum)
    cols = names(rng, d)
    tE, tP, tC = constraints(rng, d, p, order, ordered)
    base = {"op": "learn", "kind": kind, "d": d, "p": p, "penW": rng.choice([5, 50, 100, 200, 400]) if kind != "notears" else 0, "bad": "",
            "penA": rng.choice([5, 20, 50, 100, 200, 400]) if kind == "dynotears" else 0, "_tE": tE, "_tP": tP, "_tC": tC,
            "tE": [[l, i + 1, j + 1] for l, i, j in tE], "tP": [i + 1 for i in tP], "tC": [i + 1 for i in tC], "near": 500, "valid": True, "iter": 0,
            "Z": Z, "shape": 0}
    ev = []

    def go(**kw):
        e = dict(copy.deepcopy(base), **kw)
        learn(rng, e, Z, cols, order, form)
        for k in ("_tE", "_tP", "_tC", "bad"):
            e.pop(k)
        ev.append(e)

    faces = ["numpy", "pandas"]
    rng.shuffle(faces)
    if ordered:
        go(face=faces[0], t=0)
        go(face=faces[1], t=0)
        go(face=rng.choice(faces), t=rng.choice([1000, 3000, 5000]))
    else:
        go(face=faces[0], t=rng.choice([0, 3000]))
        if rng.random() < 0.5:
            go(face=faces[1], t=rng.choice([0, 3000, 8000]))
    if rng.random() < 0.25:
        go(face=rng.choice(faces), t=rng.choice([0, 3000]), iter=rng.choice([1, 1, 2, 3, 6]))
    if rng.random() < 0.3:
        face = rng.choice(faces)
        bad = rng.choice(["nan", "inf"] if face == "numpy" and kind != "dynotears" else ["nan", "inf", "text"] if kind != "dynotears" else ["rows", "cols", "nolags", "nothing"] if face == "numpy" else ["text"])
        if kind != "dynotears" and rng.random() < 0.2:
            e = dict(copy.deepcopy(base), face=face, t=0, bad="empty", valid=False)
            learn(rng, e, [], cols, order, form)
            for k in ("_tE", "_tP", "_tC", "bad"):
                e.pop(k)
            ev.append(e)
        else:
            go(face=face, t=0, bad=bad, valid=False)
    for e in ev:
        if not (e["valid"] and e["t"] == 0):
            e["Z"] = []
    return {"ev": ev, "optimum": optimum}, {"columns": repr(cols)}


def C20(rng, shard, nshards, tier):
    for k in range(50 if tier != "thorough" else 700):
        yield case(rng, tier, rng.random() < 0.35, False)


def C21(rng, shard, nshards, tier):
    for _ in range(80 if tier != "thorough" else 900):
        yield case(rng, tier, rng.random() < 0.6, True)
