"""Drivers for DAGRegressor and DAGClassifier (C34, C35)."""
import copy
import json
import os
import warnings

import stubs
from learn_drivers import writable
from torch_drivers import U, conditioned, mixed
from worker import guarded


def mods():
    writable()
    return stubs.load("causalnex.structure.pytorch.sklearn"), stubs.pandas()


LABELS = [["a", "b", "c", "d"], ["10", "2", "30", "9"], [0, 1, 2, 3], [-3, 2, 7, 10], [1, 2, 3, 4], [1.0, 2.0, 5.0, 7.0], ["No", "Yes", "maybe", "never"]]


def labels(rng, k):
    if k == 2 and rng.random() < 0.3:
        return [False, True]
    pool = rng.choice(LABELS)
    return sorted(rng.sample(pool, k))


def target(rng, X, kinds, vals, kind, k, n):
    """A target that depends on the features, with noise."""
    import math

    d = len(kinds)
    b = [rng.choice([-1, -0.5, 0, 0.5, 1]) for _ in range(d)]
    ms = [sum(r[j] for r in X) / n for j in range(d)]
    out = []
    for r in X:
        t = sum(b[j] * (r[j] - ms[j]) * (0.5 if kinds[j] == "cont" else 0.4) for j in range(d))
        t = max(-3, min(3, t))
        if kind == "cont":
            out.append(int(round(3 * t + rng.gauss(2, 3))))
        elif kind == "poiss":
            out.append(min(9, int(math.exp(t / 3 + 0.3) + 1.5 * rng.random())))
        else:
            out.append(max(0, min(k - 1, int((t / 3 + rng.gauss(0, 1.3) + 2) / 4 * k))))
    if kind in ("cls",):
        for v in range(k):
            for _ in range(3):
                if out.count(v) < 3:
                    out[rng.choice([i for i in range(n) if out.count(out[i]) > 3])] = v
    return out


def content(kinds, X, y):
    return {"kinds": kinds, "X": X, "y": y}


class Session:
    """Estimators, and how each is given its data."""

    def __init__(self, rng, c, vals, labs, d):
        self.rng, self.c, self.vals, self.labs, self.d = rng, c, vals, labs, d
        self.est, self.nfit, self.ev = {}, {}, []

    def settings(self, k):
        """Keyword arguments for estimator k; features are given by name or by position."""
        rng, C, pr = self.rng, self.c["cfgs"][k], self.pres[k]
        lab, kinds = pr["names"], self.c["data"][0]["kinds"]
        kw = {}
        if C["ridge"] or rng.random() < 0.3:
            kw["beta"] = C["ridge"] / 100
        if C["alpha"]:
            kw["alpha"] = C["alpha"] / 100
        if not C["intercept"] or rng.random() < 0.5:
            kw["fit_intercept"] = C["intercept"]
        if C["std"] or rng.random() < 0.5:
            kw["standardize"] = C["std"]
        if C["threshold"]:
            kw["threshold"] = C["threshold"] / U
        if C["dag"] or rng.random() < 0.3:
            kw["enforce_dag"] = C["dag"]
        if C["hidden"]:
            kw["hidden_layer_units"] = rng.choice([[1], [2], (2,), (1,), range(2, 3)])
        if C["target"] or rng.random() < 0.3:
            kw["target_dist_type"] = C["target"] or None
        if not C["dependent"] or rng.random() < 0.2:
            kw["dependent_target"] = C["dependent"]
        if set(kinds) != {"cont"} or rng.random() < 0.3:
            order = rng.sample(range(self.d), self.d)
            kw["dist_type_schema"] = {lab[j]: kinds[j] for j in order}
        if C["free"]:
            if C["quick"]:
                kw["max_iter"] = 1
        elif rng.random() < 0.7:
            kw["tabu_child_nodes"] = rng.sample(list(lab), self.d)
        else:
            o = rng.sample(range(self.d), self.d)
            kw["tabu_edges"] = [(lab[o[b]], lab[o[a]]) for a in range(self.d) for b in range(a + 1, self.d)]
            if rng.random() < 0.3:
                kw["tabu_parent_nodes"] = rng.choice([[], [pr["target"]]])
        return kw

    def new(self, k, bad=None):
        sk, _ = mods()
        C = self.c["cfgs"][k]
        cls = sk.DAGRegressor if C["kind"] == "reg" else sk.DAGClassifier
        e = {"op": "new", "est": k + 1, "want": "", "exc": "", "bad": bad or ""}
        kw = self.settings(k)
        if bad:
            e["want"] = "NotImplementedError" if bad == "target" else "TypeError"
            kw.update({"target": {"target_dist_type": "ord" if C["kind"] == "reg" else "poiss"}, "alpha": {"alpha": "0.1"}, "beta": {"beta": [1]},
                       "intercept": {"fit_intercept": "yes"}, "threshold": {"threshold": None}}[bad])
        out, r = guarded(lambda: cls(**kw), 20)
        e["out"] = out
        if out == "raise":
            e["exc"] = type(r).__name__
        if out == "ok":
            self.est[k] = r
        self.kw[k] = (kw, repr(kw))
        self.nfit[k] = 0
        self.ev.append(e)

    def features(self, k, rows, perm=None):
        """Rows of features as a frame or an array."""
        import numpy as np

        rng, pr = self.rng, self.pres[k]
        _, pd = mods()
        A = np.array([[r[j] for j in pr["perm"]] for r in rows], dtype=rng.choice([float, int])).reshape(len(rows), self.d)
        if not pr["frame"]:
            return A
        idx = rng.choice([None, list(range(7, 7 + len(rows))), list(range(len(rows)))[::-1], ["r%d" % i for i in range(len(rows))], rng.sample(range(100), len(rows))])
        names = [pr["names"][j] for j in pr["perm"]]
        return pd.DataFrame({names[i]: A[:, i] for i in range(self.d)}, columns=names, index=idx)

    def fit(self, k, di, bad=None):
        import numpy as np
        import networkx as nx

        rng, C, pr = self.rng, self.c["cfgs"][k], self.pres[k]
        _, pd = mods()
        if k not in self.est:
            return
        D = self.c["data"][di]
        n = len(D["X"])
        shuffle = rng.sample(range(n), n) if rng.random() < 0.3 else list(range(n))
        X = self.features(k, [D["X"][i] for i in shuffle])
        y = [D["y"][i] for i in shuffle]
        e = {"op": "fit", "est": k + 1, "data": di + 1, "valid": bad is None, "want": "ValueError", "exc": "", "classes": [], "parents": [], "acyclic": False, "itself": False}
        if bad == "oneclass":
            y = [y[0]] * n
        if C["kind"] == "clf":
            L = self.labs[k][di]
            y = [L[v] for v in y]
        elif rng.random() < 0.5:
            y = [float(v) for v in y]
        if bad == "rows":
            y = y[:-1]
        if bad == "nan":
            X = self.features(k, D["X"])
            if pr["frame"]:
                nm = [pr["names"][j] for j in pr["perm"]]
                V = X.values.astype(float)
                V[rng.randrange(n), rng.randrange(self.d)] = float("nan")
                X = pd.DataFrame({nm[i]: V[:, i] for i in range(self.d)}, columns=nm)
            else:
                X = X.astype(float)
                X[rng.randrange(n), rng.randrange(self.d)] = float("nan")
        if pr["series"]:
            kw = {"name": pr["target"]} if pr["target"] != "__target" else {}
            ix = rng.choice([None, list(range(len(y)))[::-1], rng.sample(range(50), len(y)), X.index.tolist() if pr["frame"] and len(y) == n else None])
            y = pd.Series(y, index=ix, **kw)
        else:
            y = np.array(y, dtype=object if isinstance(y[0], str) and rng.random() < 0.5 else None)

        def snap():
            return repr([X.values.tolist() if pr["frame"] else X.tolist(), X.index.tolist() if pr["frame"] else 0, y.tolist() if not pr["series"] else (y.values.tolist(), y.index.tolist(), y.name)])

        before = snap()
        m = self.est[k]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out, r = guarded(lambda: m.fit(X, y), 120)
        e["out"] = out
        e["unchanged"] = snap() == before and repr(self.kw[k][0]) == self.kw[k][1]
        self.nfit[k] += 1
        if out == "raise":
            e["exc"] = "ValueError" if isinstance(r, ValueError) else type(r).__name__
        if out == "ok" and bad is None:
            e["itself"] = r is m
            if C["kind"] == "clf":
                got = list(m.classes_)
                L = self.labs[k][di]
                e["classes"] = [next((i + 1 for i, x in enumerate(L) if x == g and (type(x) is str) == isinstance(g, str)), 99) for g in got]
            g = m.graph_
            tn = {pr["target"]} | {"%s%d" % (pr["target"], q) for q in range(1, 6)}
            e["parents"] = sorted({self.d + 1 if u in tn else 0 for u in g.nodes if g.out_degree(u)})
            e["acyclic"] = bool(nx.is_directed_acyclic_graph(g))
        if bad or out != "ok":
            self.broken.add(k)
        else:
            self.broken.discard(k)
            self.at[k] = di
        self.ev.append(e)

    def ask(self, k, train=False):
        import numpy as np

        rng, C, pr = self.rng, self.c["cfgs"][k], self.pres[k]
        if k not in self.est or k in self.broken:
            return
        di = self.at.get(k, 0)
        D = self.c["data"][di]
        affine = []
        if train:
            rows = [list(r) for r in D["X"]]
        else:
            rows = [list(r) for r in rng.sample(self.probes, rng.randint(1, len(self.probes)))]
            rows = [r for r in rows if all(D["kinds"][j] not in ("cat", "ord") or any(r[j] == q[j] for q in D["X"]) for j in range(self.d))] or [list(D["X"][0])]
            if set(D["kinds"]) == {"cont"} and C["kind"] == "reg" and C["target"] != "poiss" and rng.random() < 0.6:
                a, b, z = (rng.choice(D["X"]) for _ in range(3))
                affine = [[len(rows) + 1, len(rows) + 2, len(rows) + 3, len(rows) + 4]]
                rows += [list(a), list(b), list(z), [a[j] + b[j] - z[j] for j in range(self.d)]]
        A = self.features(k, rows)
        before = repr(A.values.tolist() if pr["frame"] else A.tolist())
        m = self.est[k]
        cat = "cat" in D["kinds"]

        def both():
            if C["kind"] == "reg":
                return m.predict(A), None, None
            p = m.predict_proba(A)
            return p, m.predict(A), None

        e = {"op": "ask", "est": k + 1, "rows": rows, "train": train, "affine": affine, "nfit": 100 * k + self.nfit[k], "exc": "", "vals": [], "cls": [], "coef": [], "icpt": [], "imp": [], "shapes": [], "links": []}
        out, r = guarded(both, 60)
        e["out"] = out
        e["unchanged"] = repr(A.values.tolist() if pr["frame"] else A.tolist()) == before
        if out == "raise":
            e["exc"] = type(r).__name__
        if out == "ok":
            p = np.asarray(r[0], dtype=float)
            unit = lambda v: int(round(min(60.0, max(-60.0, float(v))) * U))  # noqa
            if not np.isfinite(p).all():
                e["out"] = "not-numbers"
            else:
                e["vals"] = [[unit(v)] for v in p] if p.ndim == 1 else [[unit(v) for v in q] for q in p]
                if C["kind"] == "clf":
                    L = self.labs[k][di]
                    e["cls"] = [next((i + 1 for i, x in enumerate(L) if x == g and (type(x) is str) == isinstance(g, str)), 99) for g in np.asarray(r[1]).tolist()]
            two = C["kind"] == "clf" and C["target"] == "cat" and len(set(D["y"])) == 2
            if not cat and not two and e["out"] == "ok":
                out, r = guarded(lambda: (m.coef_, m.intercept_, m.feature_importances_), 20)
                if out != "ok":
                    e["out"], e["exc"] = out, type(r).__name__
                else:
                    cf, ic, im = (np.asarray(v, dtype=float) for v in r)
                    e["shapes"] = [list(cf.shape), list(ic.shape), list(im.shape)]
                    back = np.argsort(pr["perm"])
                    if cf.shape[-1] == self.d == im.shape[-1]:
                        e["coef"] = [[unit(v) for v in q[back]] for q in cf.reshape(-1, self.d)]
                        e["imp"] = [[unit(v) for v in q[back]] for q in im.reshape(-1, self.d)]
                        e["icpt"] = [unit(v) for v in ic.reshape(-1)]
                        lab = pr["names"]
                        e["links"] = [j + 1 for j in range(self.d) if any(u == lab[j] and v not in lab for u, v in m.graph_.edges)]
                    else:
                        e["out"] = "misshapen"
        self.ev.append(e)

    def look(self, k):
        """Questions about the fitted graph: edges to a node, plots."""
        import numpy as np
        import plot_drivers

        rng, C, pr = self.rng, self.c["cfgs"][k], self.pres[k]
        if k not in self.est or k in self.broken or k not in self.at:
            return
        m = self.est[k]
        unit = lambda v: int(round(min(60.0, max(-60.0, float(v))) * U))  # noqa
        nodes = list(m.graph_.nodes)
        at = {v: i + 1 for i, v in enumerate(nodes)}

        def edges():
            return [[at[u], at[v], unit(w["weight"]), unit(w["mean_effect"]) if not C["hidden"] else 0] for u, v, w in m.graph_.edges(data=True)]

        E = edges()
        cols = [pr["names"][j] for j in pr["perm"]]
        cat = "cat" in self.c["data"][self.at[k]]["kinds"]
        for _ in range(rng.randint(1, 2)):
            if cat or (C["hidden"] and rng.random() < 0.5):
                break
            v, what = rng.choice(nodes), rng.choice(["weight", "mean_effect"] if not C["hidden"] else ["weight"])
            dflt = what == "weight" and rng.random() < 0.5
            out, r = guarded(lambda: m.get_edges_to_node(v) if dflt else m.get_edges_to_node(v, data=what), 20)
            e = {"op": "edges", "est": k + 1, "out": out, "exc": type(r).__name__ if out == "raise" else "", "node": at[v], "what": what, "edges": E, "order": [at[x] for x in cols], "index": [], "vals": []}
            if out == "ok":
                e["index"] = [at.get(x, 99) for x in r.index.tolist()]
                e["vals"] = [unit(x) for x in np.asarray(r.values, dtype=float)]
            e["unchanged"] = edges() == E
            self.ev.append(e)
        if rng.random() < 0.6:
            drawn = []

            plain = plot_drivers.AGraph.draw

            def draw(viz, *a, **kw):
                r = plain(viz, *a, **kw)
                drawn.append((viz.laid or (None, plot_drivers.snap(viz)), viz.log))
                return r

            kw, prog, mpl = {}, "neato", True
            if rng.random() < 0.7:
                kw["enforce_dag"] = rng.random() < 0.7
            if rng.random() < 0.3:
                prog = rng.choice(["dot", "fdp"])
                kw["plot_structure_kwargs"] = {"prog": prog}
            if rng.random() < 0.3:
                mpl = kw["use_mpl"] = rng.random() < 0.3
            ax = plot_drivers.Axes() if rng.random() < 0.3 else None
            if ax is not None:
                kw["ax"] = ax
            stubs.load("causalnex.plots.plots")
            plot_drivers.AGraph.draw = draw
            try:
                out, r = guarded(lambda: m.plot_dag(**kw), 30)
            finally:
                plot_drivers.AGraph.draw = plain
            e = {"op": "plot", "est": k + 1, "out": out, "exc": type(r).__name__ if out == "raise" else "", "edges": E, "dag": bool(kw.get("enforce_dag")), "n": len(nodes), "drawn": [], "nodes": [], "right": False, "unchanged": edges() == E}
            if out == "ok" and drawn:
                (lp, snap), log = drawn[-1]
                sa = {str(v): i for v, i in at.items()}
                if len(sa) < len(at):
                    return
                e["nodes"] = sorted(sa.get(x, 99) for x in snap["nodes"])
                e["drawn"] = sorted([sa.get(u, 99), sa.get(v, 99)] for u, v in snap["edges"])
                if mpl:
                    fig, a = r
                    e["right"] = isinstance(a, plot_drivers.Axes) and ((a is ax and fig is None) if ax is not None else isinstance(fig, plot_drivers.Figure) and fig.ax is a)
                    e["right"] = e["right"] and any(c[0] == "imshow" for c in a.calls)
                else:
                    e["right"] = isinstance(r, plot_drivers.Image)
                e["right"] = e["right"] and lp == prog and log[-1][1] == prog
            self.ev.append(e)


def session(rng, kind=None, over=None, ndata=None, nest=None, only=None, protocol=False):
    kind = kind or rng.choice(["reg", "clf", "clf"])
    d = rng.choice([1, 2, 2, 3])
    n = rng.randint(20, 34)
    if kind == "reg" and not protocol and rng.random() < (0.8 if over and "threshold" in over else 0.2):
        d, only = 5, ["cont"]
    only = only or rng.choice([["cont"], ["cont"], ["cont", "bin"], ["cont", "bin", "ord", "poiss"], ["cont", "cat"], ["cont", "bin", "cat", "ord", "poiss"]])
    kinds, X, vals = mixed(rng, d, n, only=only, wide=3)
    if not conditioned(kinds, X):
        return session(rng, kind, over, ndata, nest, only, protocol)
    tt = rng.choice({"reg": ["", "cont", "poiss"], "clf": ["", "", "", "ord", "bin", "cat"]}[kind])
    tk = "cls" if kind == "clf" else "poiss" if tt == "poiss" else "cont"
    ks = [2] if tt == "bin" else [2, 3, 3, 4]
    data = []
    for q in range(ndata or rng.choice([1, 1, 2])):
        if q:
            X = [list(r) for r in rng.sample(X, len(X))]
            if rng.random() < 0.5:
                X = [[v + 1 if kinds[j] == "cont" else v for j, v in enumerate(r)] for r in X]
        k = rng.choice(ks)
        y = target(rng, X, kinds, vals, tk, k, n)
        if kind == "clf" and len(set(y)) != k:
            return session(rng, kind, over, ndata, nest, only, protocol)
        data.append(content(kinds, X, y))
    if len(data) > 1 and data[0] == data[1]:
        data.pop()
    base = {"kind": kind, "target": tt, "intercept": rng.random() < 0.7, "std": rng.random() < 0.4, "ridge": 0, "alpha": 0, "threshold": 0, "dag": False, "hidden": False,
            "dependent": True, "free": False, "quick": False, "near": 60}
    if not base["std"] and rng.random() < 0.6:
        base["ridge"] = rng.choice([10, 50, 200])
    if tk != "cont" and base["std"] is False and base["ridge"] == 0 and rng.random() < 0.7:
        base["ridge"] = 30
    if over:
        base.update(over)
    if base["dag"] or base["free"]:
        base["free"] = True
    c = {"data": data, "cfgs": []}
    # settings with the same number mean the same; standardising changes no prediction if nothing is penalised
    ne = nest or rng.choice([1, 2, 2])
    for q in range(ne):
        C = dict(copy.deepcopy(base), same=1)
        if q and not protocol and rng.random() < 0.25:
            C["ridge"], C["same"] = (0, 2) if C["ridge"] else (0, 1)
        elif q and not protocol and C["ridge"] == 0 and C["intercept"] and not C["hidden"] and not C["threshold"] and not C["dag"] and C["alpha"] == 0:
            C["std"] = not C["std"]
        c["cfgs"].append(C)
    s = Session(rng, c, vals, {}, d)
    s.pres, s.kw, s.broken, s.at = {}, {}, set(), {}
    top = max(len(set(D["y"])) for D in data)
    for q in range(ne):
        frame = rng.random() < 0.6
        perm = rng.sample(range(d), d) if rng.random() < 0.5 else list(range(d))
        pool = rng.choice([["f", "g", "h", "fg", "F"], ["x", "y", "z", "x_", "X"], [10, 11, 12, 1, 9], ["0", "1", "2", "10", "3"]])
        names = rng.sample(pool, d)
        if not frame:
            names = [perm.index(j) for j in range(d)]
        series = rng.random() < 0.6
        s.pres[q] = {"frame": frame, "perm": perm, "names": names, "series": series, "target": rng.choice(["t", "out", "__target"]) if series else "__target"}
        L = labels(rng, top) if kind == "clf" else []
        s.labs[q] = [L if rng.random() < 0.4 else labels(rng, top) if kind == "clf" else [] for _ in data]
    s.probes = [[(rng.randint(-6, 6) if kinds[j] == "cont" else rng.choice([0, 1]) if kinds[j] == "bin" else rng.randint(0, 6) if kinds[j] == "poiss" else rng.choice(vals[j])) for j in range(d)] for _ in range(3)]
    s.probes += [list(rng.choice(X)) for _ in range(2)]
    return s


def done(s):
    return {"ev": s.ev, "data": s.c["data"], "cfgs": s.c["cfgs"]}, {"presented": repr(s.pres), "labels": repr(s.labs), "settings": repr({k: v[1] for k, v in s.kw.items()})}


def C34(rng, shard, nshards, tier):
    for _ in range(25 if tier != "thorough" else 250):
        q = rng.random()
        over = {"hidden": True} if q < 0.06 else {"threshold": rng.choice([1000, 3000, 3000])} if q < 0.14 else {"alpha": 20} if q < 0.18 else {"free": True} if q < 0.22 else {}
        s = session(rng, over=over)
        for k in range(len(s.c["cfgs"])):
            s.new(k)
        for di in range(len(s.c["data"])):
            for k in range(len(s.c["cfgs"])):
                s.fit(k, di)
                s.ask(k, train=True)
                if rng.random() < 0.7:
                    s.ask(k)
                if rng.random() < 0.7:
                    s.look(k)
        yield done(s)


def C35(rng, shard, nshards, tier):
    hs = json.load(open(os.environ["VERIF_GEN"]))
    hs = [hs[i] for i in range(shard, len(hs), nshards)]
    rng.shuffle(hs)
    for h in hs[:40 if tier != "thorough" else 500]:
        s = session(rng, ndata=2, nest=2, protocol=True, only=["cont"] if rng.random() < 0.5 else None)
        if len(s.c["data"]) < 2:
            continue
        for k in range(2):
            s.new(k)
        for op in h:
            k = op[1] - 1
            if op[0] == "fit":
                s.fit(k, op[2] - 1)
            elif op[0] == "badfit":
                s.fit(k, op[2] - 1, bad=rng.choice(["rows", "nan"] + (["oneclass"] if s.c["cfgs"][k]["kind"] == "clf" else [])))
            elif op[0] == "ask":
                s.ask(k, train=rng.random() < 0.2 and k in s.at)
        yield done(s)
    for _ in range(6 if tier != "thorough" else 80):
        s = session(rng, over=rng.choice([{"dag": True, "quick": True}, {"dag": True}, {"dependent": False}]), ndata=1, nest=1, only=["cont", "bin"])
        s.new(0)
        s.fit(0, 0)
        s.ask(0)
        yield done(s)
    for _ in range(4 if tier != "thorough" else 30):
        s = session(rng, nest=1, ndata=1)
        s.new(0, bad=rng.choice(["target", "alpha", "beta", "intercept", "threshold"]))
        yield done(s)
