"""Drivers for InferenceEngine (C15, C16) on stand-ins for pandas and the fitted network."""
import dis
import itertools
import json
import math
import os
import types as _types

import gen
import stubs
from bbn_drivers import evseq, ratio
from worker import Inconclusive, guarded


class _Types(_types.ModuleType):
    """The types module with a CodeType that takes the arguments of Python 3.8 and makes 3.12 code of them."""

    def __init__(self):
        super().__init__("types")
        self.calls = 0

    def __getattr__(self, name):
        if name == "CodeType":
            return self._code
        return getattr(_types, name)

    def _code(self, *a):
        self.calls += 1
        if len(a) != 16:
            raise Inconclusive("CodeType with %d arguments" % len(a))
        (argc, pos, kwo, nl, stack, flags, code, consts, names, varnames, fname, name, line, _lnotab, free, cells) = a
        t = self.template
        t = t if t is not None and t.co_code == code else find_template(code)
        varnames = tuple(varnames)
        nl = max(nl, t.co_nlocals, len(varnames))
        varnames += tuple("__pad%d" % i for i in range(nl - len(varnames)))
        delta = nl - t.co_nlocals
        raw = bytearray(code)
        ops = {dis.opmap[x] for x in ("LOAD_DEREF", "STORE_DEREF", "DELETE_DEREF", "MAKE_CELL", "LOAD_CLOSURE", "LOAD_FROM_DICT_OR_DEREF") if x in dis.opmap}
        ext = dis.opmap["EXTENDED_ARG"]
        i = 0
        caches = getattr(dis, "_inline_cache_entries", None)
        while i < len(raw):
            op = raw[i]
            if op == ext:
                raise Inconclusive("long code")
            if op in ops:
                raw[i + 1] += delta
            n = 0
            if caches is not None:
                n = caches[op] if not isinstance(caches, dict) else caches.get(dis.opname[op], 0)
            i += 2 + 2 * n
        return _types.CodeType(argc, pos, kwo, nl, max(stack, t.co_stacksize), flags, bytes(raw), consts, names, varnames, fname, name,
                               t.co_qualname, line, t.co_linetable, t.co_exceptiontable, free, cells)

    template = None


def find_template(code):
    import gc

    for f in gc.get_objects():
        if isinstance(f, _types.FunctionType) and f.__code__.co_code == code:
            return f.__code__
    raise Inconclusive("template not found")


_I = []


def engine_module():
    if not _I:
        stubs.load("causalnex.network")
        import importlib

        stubs.load("causalnex.inference")
        m = importlib.import_module("causalnex.inference.inference")
        shim = _Types()
        if hasattr(m, "types"):
            m.types = shim
        _I.append((m, shim))
    return _I[0]


class FittedNetwork:
    """What the engine needs of a fitted BayesianNetwork."""

    def __init__(self, nodes, cpds):
        self.nodes, self._cpds = nodes, cpds

    @property
    def cpds(self):
        return self._cpds

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Inconclusive("fitted network: %s" % name)


def engine_values(rng, dom):
    out = []
    for k in dom:
        pools = [list(range(k)), list(range(1, k + 1)), list(range(-1, k - 1)), ["s%d" % i for i in range(k)], [chr(97 + i) for i in range(k)],
                 [i + 0.5 for i in range(k)], ["", "a", "b", "c", "d"][:k], [str(i) for i in range(k)]]
        if k == 2:
            pools += [[False, True], [False, True]]
        out.append(list(rng.choice(pools)))
    return out


def connected(pa):
    n = len(pa)
    comp = list(range(n))
    for v, ps in enumerate(pa):
        for p in ps:
            a, b = comp[v], comp[p - 1]
            comp = [a if c == b else c for c in comp]
    return len(set(comp)) == 1


def engine_net(rng, nmax=5, budget=2000, **kw):
    while True:
        net = gen.random_net(rng, 2, nmax, budget=budget, maxjoint=300, **kw)
        if connected(net["pa"]):
            return net


class EngineSubject:
    def __init__(self, rng, net, pres):
        self.rng, self.net, self.pres = rng, net, pres
        pd = stubs.pandas()
        cpds = {}
        order = list(range(1, net["n"] + 1))
        rng.shuffle(order)
        for v in order:
            ps = list(net["pa"][v - 1])
            if rng.random() < 0.7:
                ps.sort(key=lambda p: pres.names[p - 1])
            data = {}
            labels = []
            for combo in itertools.product(*[range(net["dom"][p - 1]) for p in ps]):
                vals = {p - 1: c for p, c in zip(ps, combo)}
                label = tuple(pres.values[p - 1][c] for p, c in zip(ps, combo)) if ps else ""
                labels.append(label)
                col = []
                for k in range(net["dom"][v - 1]):
                    vals[v - 1] = k
                    col.append(float(pres.prob(v - 1, dict(vals))))
                data[label] = col
            name = pres.names[v - 1]
            df = pd.DataFrame(data, index=pd.Index(list(pres.values[v - 1]), name), columns=labels)
            if ps:
                df._multi = [pres.names[p - 1] for p in ps]
            cpds[name] = df
        names = [pres.names[v - 1] for v in order]
        self.bn = FittedNetwork(names, cpds)
        self.before = self.snap()

    def refit(self):
        """The network gets other tables, as fit_cpds gives it; engines already built keep theirs."""
        pd = stubs.pandas()
        new = {}
        for name, df in self.bn._cpds.items():
            data = {c: df[c].values.tolist() for c in df.columns.tolist()}
            for c in data:
                data[c] = data[c][1:] + data[c][:1]
            d2 = pd.DataFrame(data, index=pd.Index(list(df.index), name), columns=df.columns.tolist())
            if df.__dict__.get("_multi"):
                d2._multi = df.__dict__["_multi"]
            new[name] = d2
        self.bn._cpds = new
        self.before = self.snap()

    def snap(self):
        return repr([(k, list(d.index), list(d.columns), d.values.tolist()) for k, d in self.bn._cpds.items()])

    def engine(self):
        m, shim = engine_module()
        return m.InferenceEngine(self.bn)


def plain(x):
    import numpy as np

    return x.item() if isinstance(x, np.generic) else x


def read_query(pres, net, res, M):
    """{node: {state: p}} to ratios; exact keys expected."""
    out, extra = [], 0
    seen = 0
    for v in range(1, net["n"] + 1):
        row = [[-9, 0]] * net["dom"][v - 1]
        d = res.get(pres.names[v - 1], {})
        for s, p in d.items():
            k = pres.val(v, plain(s))
            if not k:
                extra += 1
            else:
                row[k - 1] = ratio(p, M)
        out.append(row)
    extra += sum(1 for x in res if x not in pres.names)
    return {"p": out, "extra": extra}


class Tracker:
    """Only used to generate interesting inputs; the verdict is the specification's."""

    def __init__(self, net):
        self.net, self.do = net, {}

    def mutilated(self):
        n = self.net
        pa = [[] if v in self.do else list(n["pa"][v - 1]) for v in range(1, n["n"] + 1)]
        D = [self.do[v][0] if v in self.do else n["D"][v - 1] for v in range(1, n["n"] + 1)]
        w = [[self.do[v][1]] if v in self.do else n["w"][v - 1] for v in range(1, n["n"] + 1)]
        return {"n": n["n"], "dom": n["dom"], "pa": pa, "D": D, "w": w}

    def children(self, v):
        return [u for u in range(1, self.net["n"] + 1) if v in self.mutilated()["pa"][u - 1]]


def do_event(rng, tr, pres, eng, mode, v=None):
    net = tr.net
    n = net["n"]
    withch = [u for u in range(1, n + 1) if tr.children(u)]
    if v is None:
        v = rng.choice(withch) if withch and rng.random() < 0.85 else rng.randint(1, n)
    k = net["dom"][v - 1]
    name = pres.names[v - 1]
    e = {"op": "do", "v": v, "kind": "dist", "states": list(range(1, k + 1)), "w": [], "d": 1, "out": "", "exc": ""}
    vals = pres.values[v - 1]
    room = max(1, 40000 // max(1, gen.total(tr.mutilated())))
    ds = [d for d in (1, 2, 3, 4, 5, 7, 10) if d <= room]
    if mode == "state":
        s = rng.randint(1, k)
        e.update(kind="state", states=[s], w=[1], d=1)
        arg = vals[s - 1]
    elif mode == "badstate":
        pool = [x for x in ["zz", None, -99, 0.125, "", 7.5] if not any(x == y for y in vals)]
        e.update(kind="state", states=[0], w=[1], d=1)
        arg = rng.choice(pool)
    elif mode == "badnode":
        e.update(v=0, kind="state", states=[1], w=[1], d=1)
        name = rng.choice([x for x in ["nope", pres.names[0] + "_", "f_" + pres.names[0], ""] if x not in pres.names])
        arg = vals[0]
    else:
        d = rng.choice(ds)
        w = gen.composition(rng, d, k, rng.choice(["some", "none", "det"]))
        states = list(range(1, k + 1))
        if mode == "badsum":
            i = rng.randrange(k)
            w[i] += rng.choice([1, -1] if d > 1 and w[i] > 0 else [1])
        elif mode == "badrange":
            if k == 1:
                w = [2]
            else:
                i, j = rng.sample(range(k), 2)
                w = [0] * k
                w[i], w[j] = d + 1, -1
        elif mode == "missing":
            i = rng.randrange(k)
            if k > 1:
                w[(i + 1) % k] += w[i]
            states = [s for s in states if s != i + 1]
            w = w[:i] + w[i + 1:]
        elif mode == "unknown":
            states = states + [0]
            w = w + [0]
        e.update(states=states, w=list(w), d=d)
        items = [(vals[s - 1] if s else "zzz_unknown", x / d) for s, x in zip(states, w)]
        rng.shuffle(items)
        arg = dict(items)
    before = repr(arg)
    kind, r = guarded(lambda: eng.do_intervention(name, arg) if rng.random() < 0.7 else eng.do_intervention(node=name, state=arg))
    e["out"] = kind
    if kind == "raise":
        e["exc"] = type(r).__name__
    if repr(arg) != before:
        e["out"] = "argument-changed"
    if kind == "ok":
        if isinstance(arg, dict):  # the caller owns the dict
            arg.clear()
        if e["kind"] == "state":
            tr.do[v] = (1, [1 if s == e["states"][0] else 0 for s in range(1, k + 1)])
        elif sum(e["w"]) == e["d"] and len(e["w"]) == k:
            tr.do[v] = (e["d"], [x for _, x in sorted(zip(e["states"], e["w"]))])
    return e


def query_event(rng, tr, pres, eng, possible=True, ev=None):
    net = tr.mutilated()
    if ev is None:
        ev = gen.random_evidence(rng, net, possible=possible)
    obs = pres.evidence(ev)
    e = {"op": "query", "e": evseq(net, ev), "out": "ok", "args": "same"}
    before = repr(obs)
    M = gen.total(net)
    kind, res = guarded(lambda: (eng.query(obs) if obs or rng.random() < 0.5 else rng.choice([lambda: eng.query(), lambda: eng.query(None), lambda: eng.query({})])()))
    e["out"] = kind
    if kind == "ok":
        kind, r = guarded(lambda: read_query(pres, net, res, M))
        e["out"] = kind
        if kind == "ok":
            e.update(r)
            for d in res.values():  # the caller owns the answer
                for k in d:
                    d[k] = 0.5
    elif kind == "raise":
        e["exc"] = type(res).__name__
    if repr(obs) != before:
        e["args"] = "changed"
    return e


def reset_event(rng, tr, pres, eng, v=None):
    v = v or (rng.choice(sorted(tr.do)) if tr.do and rng.random() < 0.8 else rng.randint(1, tr.net["n"]))
    kind, r = guarded(lambda: eng.reset_do(pres.names[v - 1]))
    tr.do.pop(v, None)
    return {"op": "reset", "v": v, "out": kind, "exc": type(r).__name__ if kind == "raise" else ""}


BAD = ["badstate", "badnode", "badsum", "badrange", "missing", "unknown"]


def make(rng, net):
    m, shim = engine_module()
    pres = gen.Presentation(rng, net, style="cond", values=engine_values(rng, net["dom"]))
    if not all(__import__("re").match("^[0-9a-zA-Z_]+$", x) for x in pres.names) or "self" in pres.names:
        pres.names = ["v%d" % i for i in range(net["n"])]
    names_ok = [x for x in pres.names if x.isidentifier()]
    if len(names_ok) < len(pres.names):
        pres.names = ["v_%d" % i for i in rng.sample(range(20), net["n"])]
    subj = EngineSubject(rng, net, pres)
    before = shim.calls
    kind, eng = guarded(subj.engine)
    if kind == "raise" and shim.calls == before and not isinstance(eng, (ValueError, KeyError)):
        kind = "inconclusive"
    return pres, subj, kind, eng


def build_event(kind, eng):
    return {"op": "build", "out": kind, "exc": type(eng).__name__ if kind == "raise" else ""}


def unfit_event(rng, net, pres):
    """An engine asked of a network that has no tables, or a variable whose name is not a word."""
    m, shim = engine_module()
    names = list(pres.names)
    if rng.random() < 0.4:
        subj = EngineSubject(rng, net, pres)
        subj.bn = FittedNetwork(names, {})
    else:
        i = rng.randrange(len(names))
        p2 = gen.Presentation.__new__(gen.Presentation)
        p2.__dict__.update(pres.__dict__)
        p2.names = names[:i] + [rng.choice(["%s b", "%s-", ".%s", "%s!", "é%s", "%s\t", "(%s)", "%s ", " %s", "@%s", "%s/%s"]).replace("%s", names[i])] + names[i + 1:]
        subj = EngineSubject(rng, net, p2)
    kind, r = guarded(subj.engine)
    return {"op": "unfit", "out": kind, "exc": type(r).__name__ if kind == "raise" else ""}


def C15(rng, shard, nshards, tier):
    q = tier != "thorough"
    for i in range(40 if q else 500):
        net = engine_net(rng, rng.choice([3, 4, 5, 6]), budget=rng.choice([60, 400, 4000]))
        pres, subj, kind, eng = make(rng, net)
        case = {"net": net, "ev": [build_event(kind, eng)]}
        if rng.random() < 0.5:
            case["ev"].append(unfit_event(rng, net, pres))
        if kind == "ok":
            tr = Tracker(net)
            case["ev"].append(query_event(rng, tr, pres, eng))
            for _ in range(rng.randint(1, 3)):
                case["ev"].append(do_event(rng, tr, pres, eng, rng.choice(["state", "dist"])))
                for _ in range(rng.randint(1, 3)):
                    case["ev"].append(query_event(rng, tr, pres, eng, possible=True))
                if rng.random() < 0.4:
                    case["ev"].append(query_event(rng, tr, pres, eng, ev={}))
        yield case, dict(pres.label(), kind="engine")


def C16(rng, shard, nshards, tier):
    q = tier != "thorough"
    hists = []
    f = os.environ.get("VERIF_GEN")
    if f and os.path.exists(f):
        g = [h for i, h in enumerate(json.load(open(f))) if i % nshards == shard]
        hists += g if not q else rng.sample(g, min(len(g), 130))
    for _ in range(40 if q else 400):
        hists.append(None)
    for h in hists:
        if h is None:
            net = engine_net(rng, 5, budget=rng.choice([60, 400]))
        else:
            # the generated histories are about the chain or the collider of the model
            net = None
            while net is None or (gen.total(net) > 200):
                net = gen.fill_tables(rng, 3, [list(x) for x in h["pa"]], [rng.choice([2, 2, 3]) for _ in range(3)], budget=60)
        pres, subj, kind, eng = make(rng, net)
        case = {"net": net, "ev": [build_event(kind, eng)]}
        if kind == "ok":
            tr = Tracker(net)
            kind2, other = guarded(subj.engine)
            tro = Tracker(net)
            steps = h["h"] if h is not None else None
            if steps is None:
                steps = [[rng.choice(["do", "do", "do", "bad", "bad", "reset", "query", "query", "other", "refit"]), 0] for _ in range(rng.randint(6, 16))]
            if steps is not None and rng.random() < 0.5:
                steps = list(steps)
                steps.insert(rng.randrange(len(steps) + 1), ["refit", 0])
            for op, v in steps:
                v = v or None
                if op == "do":
                    case["ev"].append(do_event(rng, tr, pres, eng, rng.choice(["state", "dist"]), v))
                elif op == "bad":
                    case["ev"].append(do_event(rng, tr, pres, eng, rng.choice(BAD), v))
                elif op == "reset":
                    case["ev"].append(reset_event(rng, tr, pres, eng, v))
                elif op == "other":
                    # a second engine on the same network is on its own
                    if kind2 == "ok":
                        do_event(rng, tro, pres, other, rng.choice(["state", "dist"]))
                        guarded(lambda: other.query())
                elif op == "refit":
                    subj.refit()
                elif op == "badquery":
                    kindq, _ = guarded(lambda: eng.query({pres.names[0]: "zzz_unknown"}))
                    case["ev"].append({"op": "badquery", "out": kindq})
                if op == "query" or rng.random() < 0.7:
                    case["ev"].append(query_event(rng, tr, pres, eng, possible=rng.random() < 0.85))
            for v in sorted(tr.do) if rng.random() < 0.5 else []:
                case["ev"].append(reset_event(rng, tr, pres, eng, v))
            case["ev"].append(query_event(rng, tr, pres, eng, ev={}))
            case["ev"].append({"op": "network", "out": "same" if subj.snap() == subj.before else "changed"})
        yield case, dict(pres.label(), kind="engine")
