"""Drivers for StructureModel (C17, C18, C19)."""
import copy
import json
import os

import stubs
from worker import guarded

NONE = 1000000
ORIGINS = ["unknown", "learned", "expert"]
BAD = ["bogus", "Learned", "", None, "expert ", 1, "UNKNOWN", True]


SCALE = [4]  # weights are recorded in units of 1 / SCALE (a power of two: exactly)
SHIFT = [0]  # what is added to their magnitude, except to that of 0: weights that differ in the last bits only


def real(w):
    x = w / SCALE[0]
    return x if not w else x + SHIFT[0] if w > 0 else x - SHIFT[0]


def enc(x):
    if x is None:
        return NONE
    try:
        x = float(x)
        y = (x - SHIFT[0] if x > 0 else x + SHIFT[0] if x < 0 else x) * SCALE[0]
        if SHIFT[0] and y and (y > 0) != (x > 0):
            return 777777
    except Exception:
        return 777777
    return int(y) if y == int(y) and abs(y) < 700000 else 777777


def num(rng, w):
    """The number w/4 in one of several types."""
    import numpy as np

    x = real(w)
    if x == int(x) and rng.random() < 0.4:
        return int(x)
    return np.float64(x) if rng.random() < 0.2 else x


class World:
    def __init__(self, rng, n):
        self.rng = rng
        self.SM = stubs.structure().StructureModel
        pools = [["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"], list(range(12)), list(range(1, 13)),
                 ["n%d" % i for i in range(12)], [("t", i) for i in range(12)], [0, "0", "", (0,), 1.5, "x", "y", "z", -1, frozenset(), "q", 7]]
        self.labels = rng.sample(rng.choice(pools), n)
        self.graphs = []

    def L(self, i):
        return self.labels[i - 1] if 1 <= i <= len(self.labels) else "absent"

    def I(self, x):
        for i, y in enumerate(self.labels):
            if type(x) is type(y) and x == y:
                return i + 1
        return 99

    def observe(self):
        obs, by, strange = [], [], ""
        for g in self.graphs:
            es = []
            for u, v, d in g.edges(data=True):
                o = d.get("origin", "missing")
                if not isinstance(o, str):
                    o = repr(o)
                es.append([self.I(u), self.I(v), o, enc(d.get("weight")), enc(d.get("cost"))])
                if set(d) - {"origin", "weight", "cost"}:
                    strange = "unexpected-attributes"
            obs.append({"nodes": [self.I(x) for x in g.nodes], "edges": es})
            by.append({o: [[self.I(u), self.I(v)] for u, v in g.edges_with_origin(o)] for o in ORIGINS})
            if type(g) is not self.SM:
                strange = "not-a-structure-model"
        return {"obs": obs, "by": by, "strange": strange}

    def blank(self):
        return {"obs": [{"nodes": [], "edges": []} for _ in self.graphs], "by": [{o: [] for o in ORIGINS} for _ in self.graphs], "strange": "unreadable"}


def origin_arg(rng, o):
    return {} if o == "" else {"origin": rng.choice(BAD) if o == "bad" else o}


def items_of(w, r, via):
    out = []
    for it in r["items"]:
        u, v = w.L(it["u"]), w.L(it["v"])
        d = {}
        if it["o"]:
            d["origin"] = w.rng.choice(BAD) if it["o"] == "bad" else it["o"]
        if it["w"] != NONE:
            d["weight"] = num(w.rng, it["w"])
        if it["c"] != NONE:
            d["cost"] = num(w.rng, it["c"])
        out.append((u, v, d))
    return out


def run(w, e):
    """Carry out one call; returns the event with what was observed."""
    rng = w.rng
    op = e["op"]
    g = w.graphs[e["g"] - 1] if e.get("g") else None
    args = None
    if op == "add":
        kw = origin_arg(rng, e["origin"])
        if e["w"] != NONE:
            kw["weight"] = num(rng, e["w"])
        if e["c"] != NONE:
            kw["cost"] = num(rng, e["c"])
        its = items_of(w, e, e["via"])
        if e["via"] == "edge":
            u, v, d = its[0]
            if "origin" in kw and rng.random() < 0.3:
                o = kw.pop("origin")
                fn = lambda: g.add_edge(u, v, o, **kw, **d)  # noqa: E731
            else:
                fn = lambda: g.add_edge(u, v, **kw, **d)  # noqa: E731
        elif e["via"] == "weighted":
            name = "cost" if its and "cost" in its[0][2] else "weight"
            ts = [(u, v, d[name]) for u, v, d in its]
            if name == "cost" or rng.random() < 0.3:
                kw2 = dict(kw, **{})
                kw2.pop(name, None)
                wt = kw2.pop("weight", None)
                if wt is not None and name == "cost":
                    # "weight" is a parameter of this method, it cannot be given as an attribute too
                    e["w"] = NONE
                args = ts
                fn = lambda: g.add_weighted_edges_from(ts, weight=name, **kw2)  # noqa: E731
            else:
                kw.pop("weight", None)
                args = ts
                fn = lambda: g.add_weighted_edges_from(ts, **kw)  # noqa: E731
        elif e["via"] == "path":
            import networkx as nx

            walk = [u for u, _, _ in its] + [its[-1][1]]
            if e["shape"] == "update":
                fn = lambda: g.update(edges=[(u, v) for u, v, _ in its])  # noqa: E731
            else:
                fn = lambda: {"path": nx.add_path, "star": nx.add_star, "cycle": nx.add_cycle}[e["shape"]](g, walk if e["shape"] == "path" else walk[:-1] if e["shape"] == "cycle" else walk[:1] + [v for _, v, _ in its], **kw)  # noqa: E731
        else:
            ts = [(u, v, d) if d or rng.random() < 0.3 else (u, v) for u, v, d in its]
            args = ts
            give = (lambda: iter(ts)) if rng.random() < 0.15 else (lambda: tuple(ts)) if rng.random() < 0.2 else (lambda: ts)
            fn = lambda: g.add_edges_from(give(), **kw)  # noqa: E731
    elif op == "construct":
        import networkx as nx
        import numpy as np

        kw = origin_arg(rng, e["origin"])
        its = items_of(w, e, "")
        nodes = [w.L(i) for i in e["nodes"]]
        if e["via"] == "empty":
            data = None
        elif e["via"] == "edges":
            data = [(u, v, d) for u, v, d in its]
        elif e["via"] == "dict":
            data = {x: {} for x in nodes}
            for u, v, d in its:
                data.setdefault(u, {})[v] = d
        elif e["via"] == "array":
            k = len(nodes)
            data = np.zeros((k, k))
            for it in e["items"]:
                data[it["u"] - 1, it["v"] - 1] = real(it["w"])
        else:
            data = w.SM() if e["via"] == "model" else nx.DiGraph()
            data.add_nodes_from(nodes)
            data.add_edges_from(its)
        args = None
        fn = lambda: w.graphs.append(w.SM(data, **kw) if data is not None or rng.random() < 0.5 else w.SM(**kw))  # noqa: E731
    elif op == "addnode":
        fn = (lambda: g.add_node(w.L(e["u"]))) if rng.random() < 0.5 else (lambda: g.add_nodes_from([w.L(e["u"])]))
    elif op == "removeedge":
        fn = lambda: g.remove_edge(w.L(e["u"]), w.L(e["v"]))  # noqa: E731
    elif op == "removenode":
        fn = lambda: g.remove_node(w.L(e["u"]))  # noqa: E731
    elif op == "copy":
        import pickle

        import networkx as nx

        how = rng.choice(["copy", "deepcopy", "directed", "copycopy", "pickle", "relabel", "whole"])
        fn = lambda: w.graphs.append({"copy": lambda: g.copy(), "deepcopy": lambda: copy.deepcopy(g), "directed": lambda: g.to_directed(),  # noqa: E731
                                      "pickle": lambda: pickle.loads(pickle.dumps(g)), "relabel": lambda: nx.relabel_nodes(g, {}, copy=True), "whole": lambda: g.subgraph(list(g.nodes)).copy(),
                                      "copycopy": lambda: g.copy().copy()}[how]())
    elif op == "reverse":
        fn = lambda: w.graphs.append(g.reverse())  # noqa: E731
    elif op == "undirected":
        def fn():
            import networkx as nx

            h = g.to_undirected()
            e["und"] = [[w.I(u), w.I(v)] for u, v in h.edges()]
            if type(h) is not nx.Graph:
                e["und"] = []
    elif op == "subgraph":
        fn = lambda: w.graphs.append(g.subgraph([w.L(i) for i in e["of"]]).copy())  # noqa: E731
    elif op in ("edgesub", "removeedges", "removenodes", "clear", "compose"):
        import networkx as nx

        pairs = [(w.L(u), w.L(v)) for u, v in e.get("pairs", [])]
        some = [w.L(i) for i in e.get("of", [])]
        args = (pairs, some)
        fn = {"edgesub": lambda: w.graphs.append(g.edge_subgraph(pairs).copy()), "removeedges": lambda: g.remove_edges_from(pairs), "removenodes": lambda: g.remove_nodes_from(some),
              "clear": lambda: g.clear(), "compose": lambda: w.graphs.append(nx.compose(g, w.graphs[e["h"] - 1]))}[op]
    elif op == "threshold":
        t = num(rng, e["t2"] / 2)
        fn = (lambda: g.remove_edges_below_threshold(t)) if rng.random() < 0.5 else (lambda: g.remove_edges_below_threshold(threshold=t))
    elif op == "tilldag":
        fn = lambda: g.threshold_till_dag()  # noqa: E731
    elif op == "target":
        fn = lambda: w.graphs.append(g.get_target_subgraph(w.L(e["u"])))  # noqa: E731
    elif op == "largest":
        def fn():
            h = g.get_largest_subgraph()
            e["none"] = h is None
            if h is not None:
                w.graphs.append(h)
        e["none"] = False
    before = repr(args)
    kind, r = guarded(fn, 20)
    e["out"] = kind
    e["exc"] = type(r).__name__ if kind == "raise" else ""
    if kind == "raise" and isinstance(r, ValueError) and e["exc"] != "ValueError":
        e["exc"] = "ValueError"
    if repr(args) != before and not (args is not None and kind == "ok" and False):
        e["out"] = "argument-changed"
    k2, o = guarded(w.observe)
    e.update(o if k2 == "ok" else w.blank())
    if op == "undirected" and "und" not in e:
        e["und"] = []
    return e


def rand_items(rng, n, k, weights, o=None, loops=True):
    out = []
    for _ in range(k):
        u, v = rng.randint(1, n), rng.randint(1, n)
        if u == v and (not loops or rng.random() < 0.8):
            v = u % n + 1
        if u == v and not loops:
            continue
        out.append({"u": u, "v": v, "o": o if o is not None else rng.choice(["", "", "learned", "expert", "unknown"]),
                    "w": rng.choice(weights), "c": rng.choice([NONE, NONE, 3])})
    return out


def rand_add(rng, n, gi, weights, badp=0.12, weighted=False):
    via = rng.choice(["edge", "edges", "edges", "weighted"] + ["path"] * (not weighted))
    if via == "path":
        return rand_path(rng, n, gi, weights)
    its = rand_items(rng, n, 1 if via == "edge" else rng.choice([0, 1, 2, 3, 5]), weights, loops=True)
    o = rng.choice(["", "learned", "expert", "unknown"])
    e = {"op": "add", "g": gi, "via": via, "origin": o, "w": NONE, "c": NONE, "items": its}
    if via == "edge":
        its[0]["o"] = ""
        e["w"], e["c"] = its[0]["w"], its[0]["c"]
        its[0]["w"] = its[0]["c"] = NONE
    elif via == "weighted":
        cost = rng.random() < 0.3 and not weighted
        for it in its:
            it["o"] = ""
            x = it["w"] if it["w"] != NONE else 2
            it["w"], it["c"] = (NONE, x) if cost else (x, NONE)
        if not cost and rng.random() < 0.3:
            e["c"] = 5
    elif rng.random() < 0.5:
        e["w"] = rng.choice(weights)
        e["c"] = rng.choice([NONE, 6])
    if rng.random() < badp:
        if via == "edges" and its and rng.random() < 0.6:
            rng.choice(its)["o"] = "bad"
        else:
            e["origin"] = "bad"
    if weighted:
        for it in its:
            if it["w"] == NONE and via != "edge":
                it["w"] = rng.choice(weights)
        if via == "edge" and e["w"] == NONE:
            e["w"] = rng.choice(weights)
    return e


def rand_path(rng, n, gi, weights):
    """Edges added by networkx itself, which knows nothing of origins."""
    shape = rng.choice(["path", "star", "cycle", "update"])
    k = rng.randint(1, min(n, 4))
    ws = rng.sample(range(1, n + 1), k) if shape != "path" else [rng.randint(1, n) for _ in range(k + 1)]
    pairs = {"path": lambda: list(zip(ws, ws[1:])), "star": lambda: [(ws[0], x) for x in ws[1:]], "cycle": lambda: list(zip(ws, ws[1:] + ws[:1])),
             "update": lambda: [(rng.randint(1, n), rng.randint(1, n)) for _ in range(k)]}[shape]()
    if not pairs:
        pairs, shape = [(1, n)], "path"
    e = {"op": "add", "g": gi, "via": "path", "shape": shape, "origin": rng.choice(["", "", "learned", "expert"]) if shape != "update" else "", "w": rng.choice(weights) if shape != "update" else NONE, "c": NONE,
         "items": [{"u": u, "v": v, "o": "", "w": NONE, "c": NONE} for u, v in pairs]}
    return e


def rand_construct(rng, n, weights, weighted=False):
    via = rng.choice(["empty", "edges", "dict", "array", "graph", "model"])
    e = {"op": "construct", "g": 0, "via": via, "origin": rng.choice(["", "learned", "expert", "unknown", "bad"] if rng.random() < 0.3 else ["", "learned", "expert"]),
         "w": NONE, "c": NONE, "items": [], "nodes": []}
    if via == "empty":
        return e
    seen = set()
    for it in rand_items(rng, n, rng.randint(0 if via != "array" else 1, 2 * n), weights):
        if (it["u"], it["v"]) in seen:
            continue
        seen.add((it["u"], it["v"]))
        if weighted and it["w"] == NONE:
            it["w"] = 3
        if via == "array":
            it["o"], it["c"] = "", NONE
            if it["w"] in (NONE, 0):
                it["w"] = 5
        e["items"].append(it)
    if via == "array":
        e["nodes"] = list(range(1, n + 1))
    elif via == "edges":
        if not e["items"]:
            e["items"] = rand_items(rng, n, 1, [3], loops=False)
    else:
        e["nodes"] = sorted(rng.sample(range(1, n + 1), rng.randint(0, n)))
        if not e["items"] and not e["nodes"]:
            e["nodes"] = [1]
    return e


BIG = {"C17": 6, "C18": 7, "C19": 9}


def history(rng, prop, length):
    n = rng.randint(2, BIG[prop])
    w = World(rng, n)
    SCALE[0], SHIFT[0] = 4, 0
    if prop == "C18" and rng.random() < 0.4:
        SCALE[0] = rng.choice([2.0 ** 17, 2.0 ** 30, 2.0 ** 60, 2.0 ** -17])
        if rng.random() < 0.5:
            SCALE[0], SHIFT[0] = rng.choice([(4.0, 2 ** 30), (4.0, 2 ** 40), (2.0 ** 40, 1), (2.0 ** 24, 8)])
    base = rng.choice([0, 1 << 16, 99999]) if SCALE[0] != 4 else 0
    ws = [NONE, 0, 1, 2, 4, -1, -3, -4, 6, 10, -10] if prop != "C18" else rng.choice([[1, 2, 3, -1, -2, -3, 0, 4], list(range(-9, 10)), [1, -1], [2, 3, 4, 8, -8, -4]])
    if base:
        ws = [x + base if x > 0 else x - base for x in ws]
    weighted = prop == "C18"
    case = {"ev": []}
    first = rand_construct(rng, n, ws, weighted)
    if first["via"] == "array":
        w.labels = list(range(n))
    first["origin"] = first["origin"] if first["origin"] != "bad" else "learned"
    case["ev"].append(run(w, first))
    if len(w.graphs) != 1:
        return case, w
    for _ in range(length):
        gi = rng.randint(1, len(w.graphs)) if rng.random() < 0.5 else len(w.graphs)
        ops = {"C17": ["add"] * 6 + ["construct", "addnode", "removeedge", "removenode", "copy", "subgraph", "reverse", "undirected", "edgesub", "removeedges", "removenodes", "clear", "compose"],
               "C18": ["add"] * 3 + ["threshold"] * 3 + ["tilldag"] * 3 + ["copy", "removeedge"],
               "C19": ["add"] * 4 + ["largest"] * 3 + ["target"] * 4 + ["addnode", "removeedge", "removenode", "copy"]}[prop]
        op = rng.choice(ops)
        more = len(w.graphs) < 4
        g = w.graphs[gi - 1]
        if op in ("copy", "reverse", "subgraph", "construct", "largest", "target", "edgesub", "compose") and not more:
            if prop == "C17":
                op = "add"
            else:
                w.graphs.pop(rng.randrange(len(w.graphs)))  # forget one graph: a new case state
                case["ev"].append(None)
                break
        if op == "add":
            e = rand_add(rng, n, gi, ws, weighted=weighted)
        elif op == "construct":
            e = rand_construct(rng, n, ws, weighted)
            if e["via"] == "array" and w.labels != list(range(n)):
                continue
        elif op in ("addnode", "removenode", "target"):
            e = {"op": op, "g": gi, "u": rng.randint(1, n) if rng.random() < 0.85 else 99}
            if op == "addnode" and e["u"] == 99:
                e["u"] = 1
        elif op == "removeedge":
            es = list(g.edges)
            u, v = rng.choice(es) if es and rng.random() < 0.8 else (w.L(1), w.L(n))
            e = {"op": op, "g": gi, "u": w.I(u), "v": w.I(v)}
        elif op in ("edgesub", "removeedges"):
            es = [[w.I(u), w.I(v)] for u, v in g.edges]
            ps = rng.sample(es, rng.randint(0, min(3, len(es))))
            e = {"op": op, "g": gi, "pairs": ps + ([[1, n]] if op == "removeedges" and rng.random() < 0.3 else [])}
        elif op == "removenodes":
            e = {"op": op, "g": gi, "of": rng.sample(range(1, n + 1), rng.randint(0, min(2, n)))}
        elif op == "clear":
            if rng.random() < 0.7:
                continue
            e = {"op": op, "g": gi}
        elif op == "compose":
            e = {"op": op, "g": gi, "h": rng.randint(1, len(w.graphs))}
        elif op == "subgraph":
            e = {"op": op, "g": gi, "of": rng.sample(range(1, n + 1), rng.randint(0, n))}
        elif op == "threshold":
            e = {"op": op, "g": gi, "t2": rng.choice([0, -2, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 30]) + 2 * base * (rng.random() < 0.8)}
        else:
            e = {"op": op, "g": gi}
        case["ev"].append(run(w, e))
    case["ev"] = [e for e in case["ev"] if e is not None]
    return case, w


def histories(rng, prop, tier, m):
    for _ in range(m):
        case, w = history(rng, prop, rng.randint(3, 10))
        yield case, {"labels": repr(w.labels)}


def replayed(rng, shard, nshards, tier, k):
    f = os.environ.get("VERIF_GEN")
    if not (f and os.path.exists(f)):
        return
    hs = [h for i, h in enumerate(json.load(open(f))) if i % nshards == shard]
    if tier != "thorough":
        hs = rng.sample(hs, min(k, len(hs)))
    for h in hs:
        w = World(rng, 2)
        SCALE[0], SHIFT[0] = 4, 0
        case = {"ev": [run(w, {"op": "construct", "g": 0, "via": "empty", "origin": "", "w": NONE, "c": NONE, "items": [], "nodes": []})]}
        if len(w.graphs) == 1:
            for e in h:
                if e["g"] > len(w.graphs):
                    break
                case["ev"].append(run(w, json.loads(json.dumps(e))))
        yield case, {"labels": repr(w.labels)}


def C17(rng, shard, nshards, tier):
    yield from replayed(rng, shard, nshards, tier, 250)
    yield from histories(rng, "C17", tier, 150 if tier != "thorough" else 2500)


def C18(rng, shard, nshards, tier):
    yield from histories(rng, "C18", tier, 200 if tier != "thorough" else 3000)


def C19(rng, shard, nshards, tier):
    yield from histories(rng, "C19", tier, 200 if tier != "thorough" else 3000)
