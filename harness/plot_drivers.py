"""Driver for plots (C31): plot_structure, color gradients and display, on stand-ins for pygraphviz, IPython and matplotlib."""
import importlib
import sys

import stubs
from worker import Inconclusive, guarded


class Attr(dict):
    """Attributes of pygraphviz: text only."""

    def __setitem__(self, k, v):
        super().__setitem__(str(k), str(v))

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v


class Item(str):
    pass


class AGraph:
    def __init__(self, thing=None, name="", strict=True, directed=False, **kw):
        if kw or thing is not None:
            raise Inconclusive("AGraph(%s)" % sorted(kw))
        self.name, self.strict, self.directed = name, strict, directed
        self.graph_attr, self.node_attr, self.edge_attr = Attr(), Attr(), Attr()
        self._n, self._e = {}, {}
        self.log = []
        self.laid = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Inconclusive("AGraph.%s" % name)

    def add_node(self, n, **attr):
        it = self._n.setdefault(str(n), Item(str(n)))
        if not hasattr(it, "attr"):
            it.attr = Attr()
        it.attr.update(attr)

    def get_node(self, n):
        return self._n[str(n)]

    def nodes(self):
        return list(self._n.values())

    def add_edge(self, u, v=None, key=None, **attr):
        u, v = u if v is None else (u, v)
        self.add_node(u)
        self.add_node(v)
        it = self._e.setdefault((str(u), str(v)), Item("%s->%s" % (u, v)))
        if not hasattr(it, "attr"):
            it.attr = Attr()
        it.attr.update(attr)

    def get_edge(self, u, v):
        return self._e[str(u), str(v)]

    def edges(self):
        return list(self._e)

    def layout(self, prog="neato", args=""):
        if args:
            raise Inconclusive("layout(args)")
        self.laid = (prog, snap(self))

    def draw(self, path=None, format=None, prog=None, args=""):
        if path is not None or args:
            raise Inconclusive("draw(path)")
        self.log.append((format, prog))
        return b"%d %d" % (self.shape if hasattr(type(self), "shape") else (3, 4))


def snap(a):
    return {"nodes": {n: dict(i.attr) for n, i in a._n.items()}, "edges": {e: dict(i.attr) for e, i in a._e.items()}, "graph": dict(a.graph_attr), "node": dict(a.node_attr), "edge": dict(a.edge_attr)}


class Image:
    def __init__(self, data=None, **kw):
        if kw:
            raise Inconclusive("Image(%s)" % sorted(kw))
        self.data = data


class Axes:
    def __init__(self):
        self.calls = []

    def imshow(self, array, **kw):
        self.calls.append(("imshow", getattr(array, "shape", None), sorted(kw)))

    def axis(self, how):
        self.calls.append(("axis", how))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Inconclusive("Axes.%s" % name)


class Figure:
    def __init__(self, size):
        self.size = size

    def tight_layout(self, **kw):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Inconclusive("Figure.%s" % name)


def imread(fh, **kw):
    import numpy as np

    h, w = map(int, fh.read().split())
    return np.zeros((h, w, 4))


def subplots(rows=1, cols=1, figsize=None, **kw):
    if rows != 1 or cols != 1 or kw:
        raise Inconclusive("subplots")
    f = Figure(figsize)
    f.ax = Axes()
    return f, f.ax


def install():
    if "pygraphviz" not in sys.modules:
        ag = stubs.module("pygraphviz.agraph", AGraph=AGraph)
        stubs.module("pygraphviz", __path__=[], AGraph=AGraph, agraph=ag)
        stubs.module("IPython", __path__=[])
        stubs.module("IPython.display", Image=Image)
        plt = stubs.module("matplotlib.pyplot", imread=imread, subplots=subplots)
        stubs.module("matplotlib", __path__=[], pyplot=plt)
        stubs.module("matplotlib.axes", Axes=Axes)
        stubs.module("matplotlib.figure", Figure=Figure)


KEYS = ["color", "label", "shape", "width", "fillcolor", "penwidth", "tooltip", "fontsize", "arrowsize", "style", "weight", "origin", "bgcolor", "scale", "dpi", "rank dir", "splines", "pos"]
NODES = [["a", "b", "c", "d"], [1, 2, 3, 10], ["x", "X", "x y", ""], [("a", 1), ("a", 2), "a", 0], ["n_1", "n_10", "n", "é"], [0.5, 1, "1 ", "b"]]


def C31(rng, shard, nshards, tier):
    stubs.pandas()
    SM = stubs.structure().StructureModel
    install()
    plots = stubs.load("causalnex.plots.plots")
    display = stubs.load("causalnex.plots.display")
    style0 = (dict(plots.NODE_STYLE.NORMAL), dict(plots.EDGE_STYLE.NORMAL), dict(plots.GRAPH_STYLE))
    frozen = repr((plots.NODE_STYLE, plots.EDGE_STYLE, plots.GRAPH_STYLE))
    for i in range(300 if tier != "thorough" else 2500):
        words = {}

        def w(x):
            return words.setdefault(str(x), len(words) + 1)

        def enc(d):
            return [[w("key " + str(k)), w(v)] for k, v in d.items()]

        names = list(rng.choice(NODES))
        rng.shuffle(names)
        names = names[:rng.randint(1, 4)]
        n = len(names)
        own = lambda: {k: rng.choice(["old", 1.5, "black"]) for k in rng.sample(["color", "label", "note", "width"], rng.choice([0, 0, 1, 2]))}  # noqa: E731
        sm = SM()
        nodes = {}
        for v in names:
            nodes[v] = own()
            sm.add_node(v, **nodes[v])
        edges = {}
        for u in names:
            for v in names:
                if u != v and rng.random() < 0.4 or u == v and rng.random() < 0.03:
                    d = own()
                    if rng.random() < 0.5:
                        d["weight"] = rng.choice([0.0, 1.0, -2.25])
                    sm.add_edge(u, v, **d)
                    edges[u, v] = dict(d, origin=sm.edges[u, v]["origin"])
        at = {v: k + 1 for k, v in enumerate(names)}
        case = {"n": n, "names": [], "default": {}, "ev": []}
        blank = {"exc": "", "unchanged": True, "pairs": [], "own": {"nodes": [], "edges": []}, "given": {"an": [], "ae": [], "n": [], "e": [], "g": []}, "prog": 0, "directed": True,
                 "res": {"prog": 0, "nodes": [], "edges": [], "graph": [], "node": [], "edge": []}, "from": [], "to": [], "steps": 1, "colors": [], "share": [], "kind": "", "size": [0, 0], "calls": [], "imports": True}
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(["plot", "plot", "plot", "gradient", "display", "edit"])
            if kind == "edit":
                u, v = rng.choice(names), rng.choice(names)
                if (u, v) in edges:
                    sm.remove_edge(u, v)
                    del edges[u, v]
                else:
                    sm.add_edge(u, v, origin="expert")
                    edges[u, v] = {"origin": "expert"}
                continue
            if kind == "plot":
                some = lambda k: {a: rng.choice(["red", "x", 3, 0.5, True, 0, "", False, 0.0]) for a in rng.sample(KEYS[:-1], rng.choice([1, 1, 2, k]))}  # noqa: E731
                kw = {}
                if rng.random() < 0.5:
                    kw["all_node_attributes"] = some(3)
                if rng.random() < 0.5:
                    kw["all_edge_attributes"] = some(3)
                if rng.random() < 0.5:
                    kw["node_attributes"] = {v: some(2) for v in rng.sample(names + ["no such node"], rng.randint(0, n))}
                if rng.random() < 0.5:
                    kw["edge_attributes"] = {e: some(2) for e in rng.sample(list(edges) + [(names[0], "no such node")], rng.randint(0, len(edges)))}
                if rng.random() < 0.5:
                    kw["graph_attributes"] = some(3)
                if rng.random() < 0.5:
                    kw["prog"] = rng.choice(["neato", "dot", "twopi"])
                e = dict(blank, op="plot", pairs=[[at[u], at[v]] for u, v in edges], prog=w("prog " + kw.get("prog", "neato")))
                e["own"] = {"nodes": [enc(nodes[v]) for v in names], "edges": [enc(edges[x]) for x in edges]}
                e["given"] = {"an": enc(kw.get("all_node_attributes", {})), "ae": enc(kw.get("all_edge_attributes", {})), "g": enc(kw.get("graph_attributes", {})),
                              "n": [[at[v], enc(d)] for v, d in kw.get("node_attributes", {}).items() if v in at],
                              "e": [[at[u], at[v], enc(d)] for (u, v), d in kw.get("edge_attributes", {}).items() if (u, v) in edges]}
                shot = lambda: repr((list(sm.nodes(data=True)), list(sm.edges(data=True)), sm.graph, kw))  # noqa: E731
                before = shot()
                lack = rng.random() < 0.1
                if lack:
                    e["imports"] = False
                    held = {x: sys.modules.pop(x) for x in ("pygraphviz", "pygraphviz.agraph")}
                    sys.modules["pygraphviz"] = None
                k, a = guarded(lambda: plots.plot_structure(sm, **kw))
                if lack:
                    sys.modules.update(held)
                e["unchanged"] = shot() == before and repr((plots.NODE_STYLE, plots.EDGE_STYLE, plots.GRAPH_STYLE)) == frozen
                if k == "ok":
                    def read():
                        prog, s = a.laid
                        look = {str(v): at[v] for v in names}
                        e["directed"] = a.directed
                        e["res"] = {"prog": w("prog " + str(prog)), "nodes": [[look.get(x, 99), enc(d)] for x, d in s["nodes"].items()],
                                    "edges": [[look.get(x[0], 99), look.get(x[1], 99), enc(d)] for x, d in s["edges"].items()], "graph": enc(s["graph"]), "node": enc(s["node"]), "edge": enc(s["edge"])}
                    k2, r = guarded(read)
                    k = k if k2 == "ok" else k2 if k2 == "inconclusive" else "unreadable"
                    a = r if k2 == "inconclusive" else a
            elif kind == "gradient":
                def color():
                    c = [rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(rng.choice([3, 4, 4]))]
                    t = "#" + "".join(rng.choice(["%02x", "%02X"]) % x for x in c)
                    return (c + [255])[:4], t
                (f, ft), (t, tt) = color(), color()
                steps = rng.choice([1, 2, 3, 5, 7, 11, 13, 30, 47, 49, 60, 99])
                e = dict(blank, op="gradient", steps=steps)
                e["from"], e["to"] = f, t
                k, a = guarded(lambda: plots.color_gradient_string(ft, tt, steps))
                if k == "ok":
                    def read():
                        parts = [p.split(";") for p in a.split(":")]
                        e["colors"] = [[int(c[j:j + 2], 16) for j in (1, 3, 5, 7)] if len(c) == 9 and c[0] == "#" else [int(c[j:j + 2], 16) for j in (1, 3, 5)] + [255] if len(c) == 7 and c[0] == "#" else [] for c, _ in parts]
                        e["share"] = [round(float(x) * 10000) for _, x in parts]
                    k2, r = guarded(read)
                    k = k if k2 == "ok" else "unreadable"
            else:
                h, wd = rng.randint(1, 900), rng.randint(1, 900)
                viz = AGraph()
                viz.draw = lambda path=None, format=None, prog=None, args="": (viz.log.append((format, prog)), b"%d %d" % (h, wd))[1]
                gone = rng.random() < 0.25
                what = rng.choice(["ipython", "mpl", "axes"])
                prog = rng.choice([None, "dot", "fdp"])
                px = rng.choice([None, 1, 0.5])
                e = dict(blank, op="display", kind=what, imports=not gone, prog=w("prog " + (prog or "neato")))
                kw = {} if prog is None else {"prog": prog}
                if gone:
                    sys.modules["IPython.display" if what == "ipython" else "matplotlib"], keep = None, sys.modules["IPython.display" if what == "ipython" else "matplotlib"]
                    pp = sys.modules.pop("matplotlib.pyplot") if what != "ipython" else None
                    sub = {m: sys.modules.pop(m) for m in ("matplotlib.axes", "matplotlib.figure")} if what != "ipython" else {}
                    importlib.reload(display)
                ax = Axes()
                fn = (lambda: display.display_plot_ipython(viz, **kw)) if what == "ipython" else (lambda: display.display_plot_mpl(viz, **dict(kw, **({} if px is None else {"pixel_size_in": px}), **({"ax": ax} if what == "axes" else {}))))
                k, a = guarded(fn)
                if gone:
                    sys.modules["IPython.display" if what == "ipython" else "matplotlib"] = keep
                    if pp is not None:
                        sys.modules["matplotlib.pyplot"] = pp
                        sys.modules.update(sub)
                    importlib.reload(display)
                if k == "ok":
                    def read():
                        e["calls"] = [w("prog " + str(p)) if f == "png" else 0 for f, p in viz.log]
                        if what == "ipython":
                            e["size"] = [1, 1] if a.data == b"%d %d" % (h, wd) else [0, 0]
                        else:
                            f, x = a
                            shown = [c for c in x.calls if c[0] == "imshow"] == [("imshow", (h, wd, 4), [])] and ("axis", "off") in x.calls
                            if what == "axes":
                                e["size"] = [1, 1] if f is None and x is ax and shown else [0, 0]
                            else:
                                p = 0.01 if px is None else px
                                good = f.ax is x and shown and abs(f.size[0] - wd * p) < 1e-9 and abs(f.size[1] - h * p) < 1e-9
                                e["size"] = [1, 1] if good else [0, 0]
                    k2, r = guarded(read)
                    k = k if k2 == "ok" else k2 if k2 == "inconclusive" else "unreadable"
                    a = r if k2 == "inconclusive" else a
            e["out"] = k
            if k == "raise":
                e["exc"] = type(a).__name__
            elif k == "inconclusive":
                e["why"] = a
            case["ev"].append(e)
        case["default"] = {"n": enc(style0[0]), "e": enc(style0[1]), "g": enc(style0[2])}
        case["names"] = [[w("key label"), w("%s\n\n " % (v,))] for v in names]
        yield case, {"names": repr(names)}
