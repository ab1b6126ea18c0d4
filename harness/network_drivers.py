"""Drivers for BayesianNetwork (C25, C26) on stand-ins for pandas and pgmpy."""
import json
import os
from fractions import Fraction
from math import gcd

import stubs
from worker import guarded

NAMES = [["a", "b", "c", "d", "e", "f"], ["x1", "x10", "x2", "x", "y", "y_x"], ["Z", "a", "B", "b", "A", "z"], ["node one", "two", "", "é", "n_1", "n"], ["p", "p_0", "q", "q_1", "r", "prediction"]]
ABSENT = 0


def ratio(p):
    try:
        p = float(p)
        if p != p or abs(p) > 2:
            return [-9, 0]
        f = Fraction(p).limit_denominator(40000)
    except (TypeError, ValueError, OverflowError):
        return [-9, 0]
    return [f.numerator, f.denominator] if abs(float(f) - p) < 1e-9 else [-9, 0]


def exc(e):
    return "ValueError" if isinstance(e, ValueError) else "KeyError" if isinstance(e, KeyError) else type(e).__name__


def pool(rng, k):
    return rng.choice([list(range(k)), list(range(-1, k - 1)), list(range(3, k + 3)), ["s%d" % i for i in range(k)], ["A", "a", "b", "c", "d"][:k], list(range(8, k + 8)), [i + 0.5 for i in range(k)],
                       ["1", "10", "2", "3", "4"][:k], ["", "b", "c", "d", "e"][:k]] + ([[False, True]] * 2 if k == 2 else []))


def graph(rng, n):
    """Mostly connected and acyclic."""
    order = list(range(1, n + 1))
    rng.shuffle(order)
    edges = set()
    for i in range(1, n):
        edges.add((order[rng.randrange(i)], order[i]) if rng.random() < 0.7 else (order[i], order[rng.randrange(i)]))
    es = {(u, v) if order.index(u) < order.index(v) else (v, u) for u, v in edges}
    for _ in range(rng.choice([0, 0, 1, 2])):
        i, j = sorted(rng.sample(range(n), 2)) if n > 1 else (0, 0)
        if i != j:
            es.add((order[i], order[j]))
    if rng.random() < 0.5:
        flip = {v: i for i, v in enumerate(rng.sample(order, n))}
        es = {(u, v) if flip[u] < flip[v] else (v, u) for u, v in es}
    for v in range(1, n + 1):  # at most three parents
        ps = [e for e in es if e[1] == v]
        for e in ps[3:]:
            es.discard(e)
    if rng.random() < 0.3:
        how = rng.randrange(5)
        if how == 0 and es:
            u, v = rng.choice(sorted(es))
            es.add((v, u))
        elif how == 1:
            es.add((order[0], order[0]))
        elif how == 2 and es:
            es.discard(rng.choice(sorted(es)))
        elif how == 3 and n > 2:
            i = rng.randrange(n - 2)
            es |= {(order[i], order[i + 1]), (order[i + 1], order[i + 2]), (order[i + 2], order[i])}
        else:
            es = {e for e in es if order[-1] not in e}
    es = sorted(es)
    rng.shuffle(es)
    return es


class Subject:
    def __init__(self, rng, prop):
        self.rng = rng
        self.n = n = rng.choice([2, 2, 3, 3, 4, 4, 5]) if prop == "C25" else rng.choice([2, 2, 3, 3, 4])
        self.pd = stubs.pandas()
        self.net = stubs.load("causalnex.network")
        self.sm = stubs.structure()
        self.edges = graph(rng, n)
        self.names = rng.sample(rng.choice(NAMES), n)
        self.card = [rng.choice([1, 2, 2, 3, 3, 4]) for _ in range(n)]
        self.values = [pool(rng, k) for k in self.card]
        self.ev = []
        self.known = None
        self.bn = None

    def var(self, name):
        return self.names.index(name) + 1 if name in self.names else 99

    def val(self, v, x):
        for i, y in enumerate(self.values[v - 1]):
            if x == y and isinstance(x, str) == isinstance(y, str):
                return i + 1
        return 99

    def record(self, op, fn, read=None, args=None, **kw):
        e = {"op": op, "exc": "", "self": True, "same": True, "have": [], "null": False, "m": [], "fit": {"kind": "none", "ess": 0}, "rows": [], "vars": [], "pairs": [], "tables": [], "v": 0,
             "columns": [], "sameindex": True, "points": [], "auc": [0, 0], "cells": [], "res": [], "states": [], "probs": []}
        e.update(kw)
        b = [snap(a) for a in args or []]
        k, r = guarded(fn)
        e["out"], e["exc"] = k, exc(r) if k == "raise" else ""
        if k == "inconclusive":
            e["why"] = r
        e["unchanged"] = [snap(a) for a in args or []] == b
        if k == "ok" and read:
            k2, r2 = guarded(lambda: read(e, r))
            if k2 != "ok":
                e["out"] = k2 if k2 == "inconclusive" else "unreadable"
        self.ev.append(e)
        return e["out"] == "ok", r

    def frame(self, rows, cols, extra=False, index=None):
        """rows: lists of value numbers; cols: the variables that get a column."""
        import minipandas

        cols = list(cols)
        self.rng.shuffle(cols)
        data = {}
        for v in cols:
            data[self.names[v - 1]] = minipandas._arr([self.values[v - 1][r[v - 1] - 1] for r in rows])
        if extra:
            data["other column"] = minipandas._arr(list(range(len(rows))))
        n = len(rows)
        if index is None:
            index = self.rng.choice([list(range(n)), list(range(5, n + 5)), list(range(n))[::-1], ["r%d" % i for i in range(n)], [7] * n])
        return self.pd.DataFrame(data, index=self.pd.Index(minipandas._arr(index))), index


def snap(a):
    if hasattr(a, "columns"):
        return repr((list(a.columns), a.values.tolist(), list(a.index)))
    return repr(sorted(a.items(), key=repr)) if isinstance(a, dict) else repr(a)


def make(s):
    rng = s.rng

    def build():
        g = s.sm.StructureModel()
        if rng.random() < 0.5:
            for v in rng.sample(range(1, s.n + 1), s.n):
                g.add_node(s.names[v - 1])
        for u, v in s.edges:
            g.add_edge(s.names[u - 1], s.names[v - 1], **({"weight": rng.choice([0.0, 1.0, -2.5])} if rng.random() < 0.5 else {}))
        for v in range(1, s.n + 1):
            g.add_node(s.names[v - 1])
        return g

    s.g = build()
    before = repr(sorted(map(repr, s.g.edges(data=True)))) + repr(sorted(s.g.nodes))
    ok, bn = s.record("new", lambda: s.net.BayesianNetwork(s.g))
    s.ev[-1]["unchanged"] = before == repr(sorted(map(repr, s.g.edges(data=True)))) + repr(sorted(s.g.nodes))
    s.bn = bn if ok else None
    return ok


def read_struct(s):
    x = s.rng.random()
    if x < 0.2:
        # the structure model that was given, with the edits its owner made since
        s.record("structure", lambda: s.bn.structure, lambda e, r: e.update(same=r is s.g))
    elif x < 0.6:
        s.record("nodes", lambda: list(s.bn.nodes), lambda e, r: e.update(vars=[s.var(x) for x in r]))
    else:
        s.record("edges", lambda: list(s.bn.edges), lambda e, r: e.update(pairs=[[s.var(a), s.var(b)] for a, b in r]))


def read_states(s):
    def read(e, r):
        e["have"] = [nm in r for nm in s.names]
        e["m"] = [sorted(s.val(v, x) for x in r.get(s.names[v - 1], [])) for v in range(1, s.n + 1)]

    s.record("states", lambda: s.bn.node_states, read)


def set_states(s, good=None, full=False, byfit=None):
    rng = s.rng
    bad = rng.random() < 0.35 if good is None else not good
    m = [list(range(1, k + 1)) if full or rng.random() < 0.6 else rng.sample(range(1, k + 1), rng.randint(1, k)) for k in s.card]
    have = [True] * s.n
    null = False
    how = rng.randrange(3) if bad else -1
    if how in (0, 2):
        have[rng.randrange(s.n)] = False
    if how in (1, 2):
        null = True
    byfit = rng.random() < 0.5 if byfit is None else byfit
    nothing = rng.choice([None, float("nan")])
    if byfit:
        # a data set in which exactly these states occur
        rows_n = max(len(x) for x in m) + rng.randint(0, 3)
        cols = {}
        order = rng.sample(range(s.n), s.n)
        nullat = rng.choice([v for v in range(s.n) if have[v]]) if null and any(have) else None
        null = nullat is not None
        for v in order:
            if have[v]:
                xs = [s.values[v][k - 1] for k in m[v]] + [s.values[v][rng.choice(m[v]) - 1] for _ in range(rows_n - len(m[v]))]
                rng.shuffle(xs)
                if v == nullat:
                    xs.insert(rng.randrange(len(xs) + 1), nothing)
                    xs = xs[:]
                cols[s.names[v]] = xs
        width = max([len(x) for x in cols.values()] or [0])
        import minipandas

        for c in cols:
            cols[c] = minipandas._arr(cols[c] + [next(x for x in cols[c] if x is not None and x == x) for _ in range(width - len(cols[c]))])
        if rng.random() < 0.3:
            cols["other column"] = minipandas._arr(["o"] * width)
        df = s.pd.DataFrame(cols)
        ok, _ = s.record("setstates", lambda: s.bn.fit_node_states(df), lambda e, r: e.update(self=r is s.bn), args=[df], have=have, null=null, m=m)
    else:
        arg = {}
        keys = [v for v in rng.sample(range(s.n), s.n) if have[v]]
        for v in keys:
            xs = [s.values[v][k - 1] for k in m[v]]
            rng.shuffle(xs)
            arg[s.names[v]] = set(xs) if rng.random() < 0.7 else xs
        if null and keys:
            c = s.names[rng.choice(keys)]
            arg[c] = list(arg[c]) + [nothing] if rng.random() < 0.5 else set(arg[c]) | {nothing}
        else:
            null = False
        if rng.random() < 0.2:
            arg["other column"] = {"o"}
        b = snap(arg)

        def do():
            s.bn.node_states = arg

        ok, _ = s.record("setstates", do, have=have, null=null, m=m)
        s.ev[-1]["unchanged"] = snap(arg) == b
    if ok:
        s.known = m
        s.fitted = False
    return ok


def some_rows(s, k, domain):
    rng = s.rng
    bias = rng.random()
    return [[rng.choice(d) if rng.random() < bias else d[(r + i) % len(d)] for i, d in enumerate(domain)] for r in range(k)]


def fit(s, bad=None, both=None):
    rng = s.rng
    bad = rng.random() < 0.2 if bad is None else bad
    # now and then many rows, so that probabilities come close to each other
    rows = some_rows(s, rng.choice([1, 2, 3, 4, 6, 8, 12]) if rng.random() < 0.8 else rng.choice([40, 130, 300]), s.known or [list(range(1, k + 1)) for k in s.card])
    if rng.random() < 0.12:
        # most rows alike, so that probabilities come close to one
        few = some_rows(s, rng.choice([2, 4, 8]), s.known or [list(range(1, k + 1)) for k in s.card])
        rows = few + [list(r) for r in few[:2] for _ in range(rng.choice([110, 150]))]
        rng.shuffle(rows)
    kind, ess = rng.choice([("mle", 0), ("mle", 0), ("k2", 0), ("bdeu", rng.choice([1, 2, 5, 10]))])
    kw = {"mle": {}, "k2": {"method": "BayesianEstimator", "bayes_prior": "K2"}, "bdeu": {"method": "BayesianEstimator", "bayes_prior": "BDeu", "equivalent_sample_size": ess}}[kind]
    if kind == "mle" and rng.random() < 0.5:
        kw = {"method": "MaximumLikelihoodEstimator"}
    if bad:
        kind, kw = rng.choice([("bad", {"method": "mle"}), ("bad", {"method": "BayesianEstimator"}), ("bad", {"method": "BayesianEstimator", "bayes_prior": "k2"}),
                               ("bad", {"method": ""}), ("bad", {"method": "BayesianEstimator", "bayes_prior": "dirichlet"})])
    df, _ = s.frame(rows, range(1, s.n + 1), extra=rng.random() < 0.3)
    both = rng.random() < 0.3 and not bad if both is None else both
    pos = rng.random() < 0.3
    args = (kw.get("method", "MaximumLikelihoodEstimator"), kw.get("bayes_prior"), kw.get("equivalent_sample_size"))
    if both:
        m = [sorted({r[v] for r in rows}) for v in range(s.n)]
        s.record("setstates", lambda: s.bn, have=[True] * s.n, null=False, m=m)  # the first half of the call that follows
        s.known = m
    f = s.bn.fit_node_states_and_cpds if both else s.bn.fit_cpds
    ok, _ = s.record("fit", (lambda: f(df, *args)) if pos else (lambda: f(df, **kw)), lambda e, r: e.update(self=r is s.bn), args=[df], fit={"kind": kind, "ess": ess}, rows=rows)
    if ok and not bad:
        s.fitted = True
        s.data, s.how = rows, (kind, ess)
    return ok


def parents(s, v):
    return [a for a, b in s.edges if b == v]


def denominators(s):
    """Product of the common denominators of the tables (as in the specification)."""
    tot = 1
    for v in range(1, s.n + 1):
        ps = parents(s, v)
        q = 1
        for p in ps:
            q *= len(s.known[p - 1])
        combos = [[]]
        for p in ps:
            combos = [c + [k] for c in combos for k in s.known[p - 1]]
        L, r = 1, len(s.known[v - 1])
        for c in combos:
            t = sum(all(row[p - 1] == k for p, k in zip(ps, c)) for row in s.data)
            kind, ess = s.how
            d = (t or r) if kind == "mle" else t + r if kind == "k2" else t * r * q + ess * r
            L = L * d // gcd(L, d)
        tot *= L
    return tot


def read_cpds(s):
    def read(e, r):
        tables = []
        for nm, df in r.items():
            v = s.var(nm)
            ps = parents(s, v) if v != 99 else []
            cols = list(df.columns)
            if ps:
                order = [s.var(x) for x in df.columns.names]
                lab = [[s.val(p, x) if p != 99 else 99 for p, x in zip(order, c)] for c in cols]
            else:
                order, lab = [], [[] if c == "" else [99] for c in cols]
            vals = df.values.tolist()
            tables.append({"v": v, "order": order, "rows": [s.val(v, x) for x in df.index], "cols": lab, "p": [[ratio(x) for x in row] for row in vals]})
        e["tables"] = tables

    s.record("cpds", lambda: s.bn.cpds, read)


def predict(s, proba):
    rng = s.rng
    v = rng.randint(1, s.n)
    ps = parents(s, v)
    rows = some_rows(s, rng.choice([1, 1, 2, 3, 5]), s.known)
    cols = set(range(1, s.n + 1))
    for u in range(1, s.n + 1):
        if rng.random() < 0.35:
            cols.discard(u)
    if rng.random() < 0.5:
        cols.discard(v)
    complete = set(ps) <= cols
    if not complete:
        if denominators(s) > 40000:
            cols |= set(ps)
            complete = True
        else:
            # only what is possible under the network can be conditioned on
            poss = [r for r in rows if possible(s, r, cols - {v})]
            rows = poss
            if not rows:
                return
    if not cols:
        return
    df, index = s.frame(rows, sorted(cols), extra=complete and rng.random() < 0.3)
    seen = [[r[u - 1] if u in cols else 0 for u in range(1, s.n + 1)] for r in rows]
    name = s.names[v - 1]

    def read_pred(e, r):
        e["columns"] = ["prediction" if c == name + "_prediction" else "?" for c in r.columns]
        e["sameindex"] = list(r.index) == list(index)
        e["res"] = [s.val(v, x) for x in r[name + "_prediction"].values.tolist()]

    def read_proba(e, r):
        states = []
        for c in r.columns:
            m = [i + 1 for i, x in enumerate(s.values[v - 1]) if "%s_%s" % (name, x) == c]
            states.append(m[0] if len(m) == 1 else 99)
        e["states"] = states
        e["sameindex"] = list(r.index) == list(index)
        e["probs"] = [[ratio(r[c].values[i]) for c in r.columns] for i in range(len(rows))]

    if proba:
        s.record("proba", lambda: s.bn.predict_probability(df, name), read_proba, args=[df], v=v, rows=seen)
    else:
        s.record("predict", lambda: s.bn.predict(df, name), read_pred, args=[df], v=v, rows=seen)


def evaluate(s, ev, kind):
    rng = s.rng
    vs = [u for u in range(1, s.n + 1) if len(s.known[u - 1]) > 1] if kind == "roc" else list(range(1, s.n + 1))
    if not vs:
        return
    v = rng.choice(vs)
    ps = parents(s, v)
    rows = some_rows(s, rng.choice([1, 2, 3, 5, 7]), s.known)
    cols = {u for u in range(1, s.n + 1) if u == v or rng.random() < 0.75}
    if not set(ps) <= cols and denominators(s) > 40000:
        cols |= set(ps)
    complete = set(ps) <= cols
    if len(cols) == 1 and not complete:
        cols |= set(ps)
        complete = True
    if not complete:
        rows = [r for r in rows if possible(s, r, cols - {v})]
        if not rows:
            return
    df, index = s.frame(rows, sorted(cols), extra=complete and rng.random() < 0.3)
    seen = [[r[u - 1] if u in cols else 0 for u in range(1, s.n + 1)] for r in rows]
    name = s.names[v - 1]
    k = len(s.known[v - 1])
    pos, neg = len(rows), len(rows) * (k - 1)

    def whole(x):
        return int(round(x)) if abs(x - round(x)) < 1e-6 else 99999

    if kind == "roc":
        def read(e, r):
            pts, auc = r
            e["points"] = [[whole(a * neg), whole(b * pos)] for a, b in pts]
            e["auc"] = ratio(auc)

        s.record("roc", lambda: ev.roc_auc(s.bn, df, name), read, args=[df], v=v, rows=seen)
    else:
        def read(e, r):
            cells = []
            for key, d in r.items():
                if key in ("accuracy", "micro avg", "macro avg", "weighted avg", "samples avg"):
                    continue
                m = [i + 1 for i, x in enumerate(s.values[v - 1]) if "%s_%s" % (name, x) == key]
                cells.append({"k": m[0] if len(m) == 1 else 99, "precision": ratio(d["precision"]), "recall": ratio(d["recall"]), "f1": ratio(d["f1-score"]), "support": int(d["support"])})
            e["cells"] = cells
            e["res"] = [s.val(v, x) for x in s.bn.predict(df, name)[name + "_prediction"].values.tolist()]

        s.record("report", lambda: ev.classification_report(s.bn, df, name), read, args=[df], v=v, rows=seen)


def possible(s, row, cols):
    """Some completion of the row has positive probability."""
    def p(v, x):
        kind, _ = s.how
        if kind != "mle":
            return True
        ps = parents(s, v)
        sel = [r for r in s.data if all(r[q - 1] == x[q] for q in ps)]
        return not sel or any(r[v - 1] == x[v] for r in sel)

    import itertools

    doms = [[row[v - 1]] if v in cols else s.known[v - 1] for v in range(1, s.n + 1)]
    return any(all(p(v, dict(enumerate(c, 1))) for v in range(1, s.n + 1)) for c in itertools.product(*doms))


def case(s):
    return {"n": s.n, "edges": [list(e) for e in s.edges], "ev": s.ev}, {"names": repr(s.names), "values": repr(s.values)}


def edit(s):
    def do():
        a, b = s.rng.choice(s.names), s.rng.choice(s.names + ["new"])
        if s.rng.random() < 0.5:
            s.g.add_edge(a, b)
        elif s.g.edges:
            s.g.remove_edge(*s.rng.choice(sorted(s.g.edges)))

    s.record("edit", do)


def accepted(s):
    """A network on a structure that is accepted (or a good structure that was refused: left to the specification)."""
    import networkx as nx

    while True:
        s.edges = graph(s.rng, s.n)
        s.ev = []
        if make(s):
            return True
        h = nx.DiGraph(s.edges)
        if s.ev[0]["out"] != "raise" or len(h) == s.n and nx.is_directed_acyclic_graph(h) and nx.is_weakly_connected(h):
            return False


def life(rng, h):
    """A history of NetworkModel: after every step, what can be read must be what the history says."""
    s = Subject(rng, "C26")
    s.fitted = False
    if accepted(s):
        for op, byfit in h:
            if op in ("states", "badstates"):
                set_states(s, good=op == "states", byfit=bool(byfit))
            elif op in ("fit", "badfit"):
                fit(s, bad=op == "badfit", both=False)
            elif op == "both":
                fit(s, bad=False, both=True)
            elif op == "edit":
                edit(s)
            elif op == "predict":
                predict(s, rng.random() < 0.5)
            if s.ev[-1]["out"] not in ("ok", "raise"):
                break
            if s.known:
                read_states(s)
            if s.fitted or not s.known:
                read_cpds(s)
            if op == "edit":
                read_struct(s)
    return case(s)


def C25(rng, shard, nshards, tier):
    hs = json.load(open(os.environ["VERIF_GEN"]))[shard::nshards]
    rng.shuffle(hs)
    for h in hs[:100 if tier != "thorough" else 3000]:
        yield life(rng, h)
    for _ in range(150 if tier != "thorough" else 2500):
        s = Subject(rng, "C25")
        s.fitted = False
        if make(s):
            for _ in range(rng.randint(2, 10)):
                op = rng.choice(["struct", "struct", "edit", "set", "set", "states", "fit", "cpds"])
                if op == "struct":
                    read_struct(s)
                elif op == "edit":
                    edit(s)
                elif op == "set":
                    set_states(s)
                    if s.known and rng.random() < 0.7:
                        read_states(s)
                elif op == "states" and s.known:
                    read_states(s)
                elif op == "fit" and s.known:
                    fit(s, bad=rng.random() < 0.5)
                elif op == "cpds" and (s.fitted or not s.known):
                    read_cpds(s)
        yield case(s)


def C26(rng, shard, nshards, tier):
    for _ in range(100 if tier != "thorough" else 2000):
        s = Subject(rng, "C26")
        s.fitted = False
        accepted(s)
        if s.bn is not None:
            if set_states(s, good=True, full=rng.random() < 0.8):
                for _ in range(rng.choice([1, 1, 2])):
                    fit(s, bad=False)
                    if not s.fitted:
                        break
                    for _ in range(rng.randint(1, 5)):
                        op = rng.choice(["cpds", "predict", "predict", "proba", "proba", "badfit", "reset"])
                        if op == "cpds":
                            read_cpds(s)
                        elif op == "badfit":
                            fit(s, bad=True)
                        elif op == "reset":
                            set_states(s, good=False)
                            if not s.fitted:
                                break
                        else:
                            predict(s, op == "proba")
        yield case(s)


def C30(rng, shard, nshards, tier):
    ev = stubs.load("causalnex.evaluation.evaluation")
    for _ in range(90 if tier != "thorough" else 2000):
        s = Subject(rng, "C30")
        s.fitted = False
        for _ in range(20):
            s.edges = graph(rng, s.n)
            s.ev = []
            if make(s):
                break
        if s.bn is not None and set_states(s, good=True, full=rng.random() < 0.8):
            fit(s, bad=False)
            if s.fitted:
                for _ in range(rng.randint(2, 5)):
                    evaluate(s, ev, rng.choice(["roc", "roc", "report"]))
        yield case(s)
