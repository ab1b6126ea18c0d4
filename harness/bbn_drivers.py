"""Drivers for the belief network (C01..C14): run the real code, record what it did."""
import copy
import itertools
import math
import os
import random
import sys
from fractions import Fraction

import gen
from worker import guarded

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


def B():
    from causalnex.ebaybbn import bbn

    return bbn


def ratio(p, M):
    """p as [num, den] with den <= M, or [x, 0] if it is no such number."""
    if isinstance(p, bool) or not isinstance(p, (int, float)):
        try:
            p = float(p)
        except Exception:
            return [-1, 0]
    if not math.isfinite(p):
        return [-2, 0]
    if abs(p) > 1.5:
        return [-3, 0]
    f = Fraction(p).limit_denominator(M)
    if abs(f - Fraction(p)) > Fraction(1, 10 ** 9):
        return [-4, 0]
    return [f.numerator, f.denominator]


def units(p):
    """p in units of 1e-8; -1 reserved for missing."""
    try:
        p = float(p)
    except Exception:
        return -2
    if not math.isfinite(p):
        return -2
    return int(min(max(round(p * 1e8), 0), 10 ** 9))


def evseq(net, ev):
    return [ev.get(v, 0) for v in range(1, net["n"] + 1)]


def ratios_of(pres, res):
    net = pres.net
    M = gen.total(net)
    out = []
    for v in range(1, net["n"] + 1):
        row = []
        for k in range(1, net["dom"][v - 1] + 1):
            key = (pres.names[v - 1], pres.values[v - 1][k - 1])
            row.append(ratio(res[key], M) if key in res else [-9, 0])
        out.append(row)
    return out


def units_of(pres, res):
    net = pres.net
    out, neg, seen = [], 0, set()
    for v in range(1, net["n"] + 1):
        row = []
        for k in range(1, net["dom"][v - 1] + 1):
            row.append(-1)
        out.append(row)
    extra = 0
    for key, p in res.items():
        try:
            name, value = key
            v = pres.var(name)
            k = pres.val(v, value) if v else 0
        except Exception:
            v = k = 0
        if not v or not k:
            extra += 1
            continue
        out[v - 1][k - 1] = units(p)
        try:
            if p < -1e-9:
                neg += 1
        except Exception:
            pass
    return out, extra, neg


# --------------------------------------------------------------- network families


def families(rng, shard, nshards, tier, scale=1.0, big=True, small_only=False):
    """(net, presentation labels or None) for the quick or thorough tier."""
    q = tier != "thorough"
    # every labelled DAG up to 4 nodes (they are enumerated by the specification too)
    k = 0
    for n in (1, 2, 3) if (q and scale < 1) else (1, 2, 3, 4):
        for pa, order in gen.all_dags(n):
            k += 1
            if k % nshards != shard:
                continue
            for _ in range(1 if q else 4):
                dom = [rng.choice([2, 2, 2, 3, 1]) for _ in range(n)]
                yield gen.fill_tables(rng, n, pa, dom), order
    m = int((40 if q else 400) * scale)
    for _ in range(m):
        yield gen.random_net(rng, 2, 6), None
    for _ in range(m // 2):
        yield gen.random_net(rng, 4, 7, maxdom=2, maxp=5, budget=gen.MAXZ), None
    for _ in range(m // 4):
        yield gen.random_net(rng, 3, 5, maxdom=5, maxp=4, maxjoint=1500), None
    if small_only:
        return
    for _ in range(max(1, m // 4)):
        yield gen.sparse_net(rng, rng.randint(8, 15), coins=rng.randint(3, 8), maxp=rng.randint(2, 5), dens=rng.choice([0.15, 0.3, 0.5])), None
    for _ in range(max(1, m // 10)):
        yield gen.sparse_net(rng, rng.randint(12, 22), coins=rng.randint(2, 6), maxp=2, dens=0.12), None
    for _ in range(max(2, m // 8)):
        yield gen.wide_net(rng), None
    if big:
        for i in range(1 if q else 4):
            n = rng.choice([30, 60, 120, 200, 300]) if shard else 300
            yield gen.chain_net(rng, n, coins=4, tree=rng.random() < 0.5, parts=rng.choice([1, 1, 2, 4])), None


def query_event(bbn, pres, ev, encode):
    kind, res = guarded(lambda: bbn.query(**pres.evidence(ev)))
    e = {"op": "query", "e": evseq(pres.net, ev), "out": kind}
    if kind == "ok":
        kind2, enc = guarded(lambda: encode(res))
        if kind2 != "ok":
            e["out"] = "result-unreadable"
        else:
            e.update(enc)
    elif kind == "raise":
        e["exc"] = type(res).__name__
    return e


def _query_cases(rng, shard, nshards, tier, encode, impossible):
    q = tier != "thorough"

    def graded():
        for _ in range(12 if q else 120):
            yield gen.graded(rng, lambda: gen.random_net(rng, 2, 6, budget=rng.choice([300, 3000, 30000]), zeros=rng.choice(["det", "some"]))), None
        for _ in range(4 if q else 40):
            yield gen.graded(rng, lambda: gen.sparse_net(rng, rng.randint(6, 9), coins=3, maxp=2, dens=0.3)), None

    for net, labels in itertools.chain(families(rng, shard, nshards, tier), graded()):
        pres = gen.Presentation(rng, net, labels=labels)
        case = {"net": net, "ev": []}
        kind, bbn = guarded(pres.build)
        if kind != "ok":
            case["ev"].append({"op": "build", "out": "build-" + kind, "e": evseq(net, {})})
            yield case, pres.label()
            continue
        nq = 5 if net["n"] < 20 else 2
        for q in range(nq):
            ev = {} if q == 0 else gen.random_evidence(rng, net, possible=None if not impossible or rng.random() < 0.6 else False)
            case["ev"].append(query_event(bbn, pres, ev, lambda r: encode(pres, r)))
        yield case, pres.label()


def C01(rng, shard, nshards, tier):
    yield from _query_cases(rng, shard, nshards, tier, lambda p, r: {"p": ratios_of(p, r)}, False)


def C02(rng, shard, nshards, tier):
    def enc(p, r):
        u, extra, neg = units_of(p, r)
        return {"p": u, "extra": extra, "neg": neg}

    yield from _query_cases(rng, shard, nshards, tier, enc, True)


# ------------------------------------------------------------------- C03 evidence


def wrong_value(rng, pres, v):
    """A hashable value that equals no value of variable v."""
    vs = pres.values[v - 1]
    pool = ["zzz", None, "", -99, 0.125, (7, 7), "True", "False", "0", "1", 0, 1, 2, True, False]
    pool += [str(x) for x in vs] + [x for vals in pres.values for x in vals]
    pool += [x.upper() for x in vs if isinstance(x, str)] + [x + " " for x in vs if isinstance(x, str)]
    pool = [x for x in pool if not any(x == y for y in vs)]
    return rng.choice(pool)


def equal_value(rng, v, arrays=True):
    """A value equal to v, maybe of another type."""
    import numpy as np

    if type(v) in (bool, int, float) and abs(v) < 2 ** 30:
        return rng.choice([t(v) for t in (bool, int, float) + ((np.int64, np.float64, np.bool_) if arrays else ()) if t(v) == v] or [v])
    if type(v) is str and arrays:
        return rng.choice([v, np.str_(v)])
    return v


def wrong_name(rng, pres):
    pool = [x + "_" for x in pres.names] + [x.swapcase() for x in pres.names] + [x[:-1] for x in pres.names]
    pool += pres.fnames + ["nope", "", "x", "f_", "domains", "True"] + [x[0] for x in pres.names]
    pool = [x for x in pool if x not in pres.names and x != "self"]
    return rng.choice(pool)


def C03(rng, shard, nshards, tier):
    for net, labels in families(rng, shard, nshards, tier, scale=0.8, big=False):
        pres = gen.Presentation(rng, net, labels=labels)
        case = {"ev": []}
        kind, bbn = guarded(pres.build)
        if kind != "ok":
            case["ev"].append({"op": "build", "items": [], "out": kind, "exc": ""})
            yield case, pres.label()
            continue
        for _ in range(8):
            op = rng.choice(["query", "query", "sample", "validate"])
            ev = gen.random_evidence(rng, net, possible=True)
            items = [[v, k] for v, k in ev.items()]
            given = [(gen.fresh(pres.names[v - 1]), gen.fresh(pres.values[v - 1][k - 1])) for v, k in items]
            bad = rng.choice([0, 0, 1, 1, 1, 2, 3])
            for _ in range(bad):
                pos = rng.randint(0, len(given))
                if rng.random() < 0.5:
                    name = wrong_name(rng, pres)
                    if name in [g[0] for g in given]:
                        continue
                    given.insert(pos, (name, rng.choice([True, "zzz", None, pres.values[0][0]])))
                    items.insert(pos, [0, 0])
                else:
                    v = rng.randint(1, net["n"])
                    value = wrong_value(rng, pres, v)
                    at = [i for i, it in enumerate(items) if it[0] == v]
                    if at:
                        given[at[0]] = (pres.names[v - 1], value)
                        items[at[0]] = [v, 0]
                    else:
                        given.insert(pos, (pres.names[v - 1], value))
                        items.insert(pos, [v, 0])
            if rng.random() < 0.5:  # an equal value of another type is the same value
                plain = {x for x, vs in zip(pres.names, pres.values) if not any(isinstance(y, tuple) for y in vs)}  # numpy compares values with tuples element by element
                given = [(k, equal_value(rng, v, k in plain)) for k, v in given]
            kw = dict(given)
            fn = {"query": lambda: bbn.query(**kw), "validate": lambda: bbn.validate_keyvals(**kw),
                  "sample": lambda: bbn.draw_samples(kw, 2)}[op]
            kind, res = guarded(fn)
            e = {"op": op, "items": items, "out": kind, "exc": type(res).__name__ if kind == "raise" else ""}
            if op == "validate" and kind == "ok" and res is not True:
                e["out"] = "not-true"
            e["given"] = repr(given)
            case["ev"].append(e)
        yield case, pres.label()


# ------------------------------------------------------------------- C04 history


def units_only(pres, res):
    return units_of(pres, res)[0]


class Session:
    """Two (or more) networks over the same variables, operated on by a history of the model."""

    def __init__(self, rng, nets, press):
        self.rng, self.nets, self.press = rng, nets, press
        self.bbns = [p.build() for p in press]
        self.kept = None
        self.evs = []
        for net in nets:
            some = gen.random_evidence(rng, net, possible=True, size=1)
            more = gen.random_evidence(rng, net, possible=True, size=rng.randint(1, net["n"]))
            imp = {}
            for _ in range(20):
                imp = gen.random_evidence(rng, net, possible=False, size=rng.randint(1, net["n"]))
                if not gen.support(net, imp):
                    break
            self.evs.append({"none": {}, "some": some, "more": more, "impossible": imp})

    def op(self, op, n, arg):
        b, pres, net = self.bbns[n], self.press[n], self.nets[n]
        rng = self.rng
        e = {"op": op, "net": n + 1, "e": evseq(net, {}), "out": "ok", "p": [], "args": "same"}
        ev = self.evs[n].get(arg, {})
        if op in ("query", "fresh"):
            e["e"] = evseq(net, ev)
            kw = pres.evidence(ev)
            before = repr(kw)
            tgt = b if op == "query" else pres.build()
            kind, res = guarded(lambda: tgt.query(**kw))
            e["out"] = kind if kind != "raise" else "raise"
            if kind == "ok":
                e["p"] = units_only(pres, res)
                if op == "query":
                    self.kept = res
            if repr(kw) != before:
                e["args"] = "changed"
        elif op == "badquery":
            kw = pres.evidence(self.evs[n]["some"])
            if arg == "name":
                kw[wrong_name(rng, pres)] = True
            else:
                v = rng.randint(1, net["n"])
                kw[pres.names[v - 1]] = wrong_value(rng, pres, v)
            e["e"] = evseq(net, {})
            guarded(lambda: b.query(**kw))
        elif op == "badsample":
            kw = pres.evidence(self.evs[n]["some"])
            kw[wrong_name(rng, pres)] = True
            before = repr(kw)
            guarded(lambda: b.draw_samples(kw, 1))
            if repr(kw) != before:
                e["args"] = "changed"
        elif op == "sample":
            if arg == "impossible":
                return None
            kw = pres.evidence(ev)
            before = repr(kw)
            k = rng.randint(0, 3)
            kind, res = guarded(lambda: b.draw_samples(kw, k) if kw or rng.random() < 0.5 else b.draw_samples(n=k))
            if repr(kw) != before:
                e["args"] = "changed"
            if kind == "ok":
                for s in res:  # the caller owns the samples
                    try:
                        s.clear()
                    except Exception:
                        pass
        elif op == "export":
            guarded(b.get_graphviz_source)
        elif op == "jointree":
            def f():
                jt = b.build_join_tree()
                a = jt.assign_clusters(b)
                jt.initialize_potentials(a, b, pres.evidence(ev))
                jt.propagate()
                for node in b.nodes:
                    jt.marginal(node)
            guarded(f)
        elif op == "scribble":
            if self.kept is not None:
                try:
                    for k in list(self.kept):
                        self.kept[k] = 0.123
                    self.kept["junk"] = 1
                except Exception:
                    pass
        elif op == "rebuild":
            # a second network from the very same factors / tables: must not disturb the first
            guarded(pres.build)
        return e


class StablePresentation(gen.Presentation):
    """Builds from the same factor objects, domain mapping and tables every time, so that a change to them shows."""

    def build(self):
        from causalnex.ebaybbn import bbn as Bm

        if not hasattr(self, "_given"):
            if self.style == "cond":
                self._given = (self.conditionals(),)
            else:
                self._given = ([self.factor(v) for v in self.order], self.domains())
            self._before = self.snapshot()
        if self.style == "cond":
            return Bm.build_bbn_from_conditionals(self._given[0])
        if self.as_list:
            return Bm.build_bbn(self._given[0], domains=self._given[1])
        return Bm.build_bbn(*self._given[0], domains=self._given[1])

    def snapshot(self):
        if self.style == "cond":
            return repr(self._given[0])
        return (list(map(id, self._given[0])), [repr(getattr(f, "argspec", None)) for f in self._given[0]], repr(self._given[1]))

    def unchanged(self):
        return self.snapshot() == self._before


def C04(rng, shard, nshards, tier):
    import json

    q = tier != "thorough"
    hists = []
    f = os.environ.get("VERIF_GEN")
    if f and os.path.exists(f):
        hists = json.load(open(f))
        hists = [h for i, h in enumerate(hists) if i % nshards == shard]
        if q:
            hists = rng.sample(hists, min(len(hists), 260))
    ops = ["query"] * 5 + ["badquery", "badquery", "badsample", "sample", "sample", "export", "jointree", "scribble", "rebuild"]
    for _ in range(20 if q else 300):
        hists.append([[rng.choice(ops), rng.randint(1, 2), rng.choice(["none", "some", "more", "impossible", "name", "value"])] for _ in range(rng.randint(8, 25))])
    for h in hists:
        net1 = gen.random_net(rng, 2, 5, maxjoint=200)
        # the second network: same variables and values, other tables and mostly another structure
        pa2 = gen.random_dag(rng, net1["n"], 3)
        net2 = gen.fill_tables(rng, net1["n"], pa2 if rng.random() < 0.7 else net1["pa"], net1["dom"])
        p1 = StablePresentation(rng, net1)
        p2 = StablePresentation(rng, net2, style=p1.style, names=p1.names, values=p1.values)
        if rng.random() < 0.5:
            p2.fnames = p1.fnames
        case = {"ev": []}
        kind, s = guarded(lambda: Session(rng, [net1, net2], [p1, p2]))
        blank = {"op": "build", "net": 0, "e": [], "out": "ok", "p": [], "args": "same"}
        if kind != "ok":
            case["ev"].append(blank)  # whether networks can be built is the matter of other properties
            yield case, p1.label()
            continue
        for n in (0, 1):
            e = s.op("fresh", n, rng.choice(["none", "some", "more"]))
            case["ev"].append(e)
        for op, n, arg in h:
            if op in ("query",) and arg in ("name", "value"):
                arg = "some"
            if op == "badquery" and arg not in ("name", "value"):
                arg = "name"
            e = s.op(op, n - 1, arg)
            if e is not None:
                case["ev"].append(e)
        for n in (0, 1):
            for arg in ("none", "some", "more", "impossible"):
                case["ev"].append(s.op("query", n, arg))
                case["ev"].append(s.op("fresh", n, arg))
        for p in (p1, p2):
            if not p.unchanged():
                case["ev"].append(dict(blank, args="changed"))
        yield case, {"history": h, "networks": [p1.label(), p2.label()]}


# -------------------------------------------------------------- C05 presentations


def C05(rng_, shard, nshards, tier):
    """Every shard (its own hash seed) presents the same networks in its own ways; collated afterwards."""
    shared = random.Random("C05/%s" % os.environ.get("VERIF_SHARED_SEED", "1"))
    q = tier != "thorough"
    fams = []
    for n in (2, 3):
        for pa, order in gen.all_dags(n):
            fams.append(gen.fill_tables(shared, n, pa, [shared.choice([2, 2, 3]) for _ in range(n)]))
    for _ in range(500 if q else 3000):
        fams.append(gen.random_net(shared, 2, 6))
    for _ in range(100 if q else 600):
        fams.append(gen.random_net(shared, 4, 7, maxdom=2, maxp=4))
    for _ in range(60 if q else 300):
        fams.append(gen.sparse_net(shared, shared.randint(8, 14), coins=5, maxp=3, dens=0.3))
    for _ in range(50 if q else 300):
        fams.append(gen.graded(shared, lambda: gen.random_net(shared, 2, 6, budget=3000, zeros=shared.choice(["det", "some"]))))
    for i, net in enumerate(fams):
        evs = [{}] + [gen.random_evidence(shared, net) for _ in range(2)]
        style = shared.choice(["def", "argspec", "cond"])
        names = gen.var_names(shared, net["n"], True)
        values = [gen.value_names(shared, k) for k in net["dom"]]
        case = {"ev": []}
        # the same names and values in all shards but one or two; other orders and styles everywhere
        for rep in range(1 if q else 2):
            own = shard % 4 == 3
            pres = gen.Presentation(rng_, net, names=None if own else names, values=None if own else values,
                                    style=None)
            kind, bbn = guarded(pres.build)
            for ev in evs:
                e = {"op": "query", "e": evseq(net, ev), "out": "build-" + kind, "p": [], "pres": "shard %d: %s" % (shard, pres.style)}
                if kind == "ok":
                    k2, res = guarded(lambda: bbn.query(**pres.evidence(ev)))
                    e["out"] = k2
                    if k2 == "ok":
                        e["p"] = units_only(pres, res)
                case["ev"].append(e)
        yield case, pres.label()


# ------------------------------------------------------------------- C06 structure

import re  # noqa: E402


def parse_graphviz(text, fnames):
    """Nodes and edges of a text in the DOT language (without subgraphs and ports)."""
    toks = []
    pos = 0
    lex = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"((?:[^"\\]|\\.)*)"|(->|[\[\]{};,=])|(-?(?:\.\d+|\d+(?:\.\d*)?))(?!\w)|([^\W\d]\w*)', re.S)
    while pos < len(text):
        m = lex.match(text, pos)
        if not m:
            raise ValueError("not DOT: %r" % text[pos:pos + 20])
        pos = m.end()
        if m.group(1) is not None:
            toks.append(("id", m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        elif m.group(2):
            toks.append((m.group(2), m.group(2)))
        elif m.group(3):
            toks.append(("id", m.group(3)))
        elif m.group(4):
            w = m.group(4).lower()
            toks.append(("kw", w) if w in ("node", "edge", "graph", "digraph", "subgraph", "strict") else ("id", m.group(4)))
    toks.append(("end", ""))
    at = [0]

    def peek():
        return toks[at[0]][0]

    def take(*kinds):
        k, w = toks[at[0]]
        if k not in kinds:
            raise ValueError("not DOT: %r where %s is expected" % (w, kinds))
        at[0] += 1
        return w

    def attributes():
        while peek() == "[":
            take("[")
            while peek() != "]":
                take("id")
                take("=")
                take("id")
                if peek() in (";", ","):
                    take(";", ",")
            take("]")

    def ix(s):
        return fnames.index(s) + 1 if s in fnames else 0

    nodes, edges = [], []
    if toks[at[0]] == ("kw", "strict"):
        take("kw")
    if take("kw") != "digraph":
        raise ValueError("not a directed graph")
    if peek() == "id":
        take("id")
    take("{")
    while peek() != "}":
        if peek() == ";":
            take(";")
        elif peek() == "kw":
            if take("kw") not in ("node", "edge", "graph"):
                raise ValueError("not a plain graph")
            attributes()
        else:
            u = take("id")
            if peek() == "=":
                take("=")
                take("id")
                continue
            if peek() != "->":
                nodes.append(ix(u))
            while peek() == "->":
                take("->")
                v = take("id")
                edges.append([ix(u), ix(v)])
                u = v
            attributes()
    take("}")
    take("end")
    return nodes, edges


def read_nodes(bbn, pres):
    net = pres.net
    intro, par, chi = [], [[] for _ in range(net["n"])], [[] for _ in range(net["n"])]
    for node in bbn.nodes:
        v = pres.var(node.variable_name)
        f = pres.fnames.index(node.name) + 1 if node.name in pres.fnames else 0
        intro.append([v, f])
        if v:
            par[v - 1] = [pres.var(p.variable_name) for p in node.parents]
            chi[v - 1] = [pres.var(c.variable_name) for c in node.children]
    return intro, par, chi


def ancestral(rng, net):
    """Some variables and all their ancestors."""
    keep, new = set(), {rng.randint(1, net["n"])}
    while new:
        keep |= new
        new = {p for v in new for p in net["pa"][v - 1]} - keep
    return keep


def C06(rng, shard, nshards, tier):
    for net, labels in families(rng, shard, nshards, tier, scale=1.5):
        pres = gen.Presentation(rng, net, labels=labels)
        case = {"n": net["n"], "pa": net["pa"], "ev": []}
        # several networks may be built from the same factors
        fs = pres.factors() if rng.random() < 0.4 else None
        kind, bbn = guarded(lambda: pres.build(fs and list(fs)))
        if kind != "ok":
            case["ev"].append({"op": "build", "out": kind})
            yield case, pres.label()
            continue
        steps = ["nodes", "export"]
        if rng.random() < 0.3:
            steps += ["use", "nodes", "export"]
        if fs:
            steps += ["part", "again", "nodes", "export", "first", "nodes", "export"]
        first = bbn
        for op in steps:
            if op == "part":
                keep = ancestral(rng, net)
                guarded(lambda: pres.build([f for f, v in zip(fs, pres.order) if v + 1 in keep]))
                continue
            if op == "again":
                kind, bbn = guarded(lambda: pres.build(rng.sample(fs, len(fs))))
                if kind != "ok":
                    case["ev"].append({"op": "build", "out": kind})
                    break
                continue
            if op == "first":
                bbn = first
                continue
            if op == "use":
                guarded(lambda: bbn.query(**pres.evidence(gen.random_evidence(rng, net))))
                continue
            if op == "nodes":
                kind, r = guarded(lambda: read_nodes(bbn, pres))
                e = {"op": op, "out": kind}
                if kind == "ok":
                    e["intro"], e["par"], e["chi"] = r
            else:
                kind, r = guarded(lambda: bbn.get_graphviz_source())
                if kind == "ok":
                    try:
                        r = parse_graphviz(r, pres.fnames)
                    except ValueError:
                        kind = "unreadable"
                e = {"op": op, "out": kind}
                if kind == "ok":
                    e["gnodes"], e["gedges"] = r
            case["ev"].append(e)
        yield case, pres.label()


# ------------------------------------------------------------------- C07 tables


def C07(rng, shard, nshards, tier):
    import itertools

    q = tier != "thorough"
    for _ in range(160 if q else 1600):
        np_ = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        n = np_ + 1
        while True:
            dom = [rng.choice([1, 2, 2, 3, 4]) for _ in range(n)]
            if math.prod(dom) <= 160:
                break
        names = gen.var_names(rng, n, identifiers=rng.random() < 0.5)
        values = [gen.value_names(rng, k) for k in dom]
        self_ = rng.randint(1, n)
        parents = [v for v in range(1, n + 1) if v != self_]
        rank = [sorted(names).index(x) for x in names]
        codes = {}
        rows, conds = [], []
        code = 1
        fixed_order = rng.random() < 0.3
        for combo in itertools.product(*[range(1, dom[p - 1] + 1) for p in parents]):
            given = [[p, k] for p, k in zip(parents, combo)]
            if not fixed_order:
                rng.shuffle(given)
            ks = list(range(1, dom[self_ - 1] + 1))
            rng.shuffle(ks)
            vals = []
            row = {}
            for k in ks:
                vals.append([k, code])
                # distinct numbers, so that any mix-up shows; one is 0 and one is an int
                pr = 0 if code == 1 else 1 if code == 2 else (code % 97) / 1000.0 + code
                codes[repr(pr)] = code
                row[values[self_ - 1][k - 1]] = pr
                code += 1
            rows.append([given, vals])
            g = [(names[p - 1], values[p - 1][k - 1]) for p, k in given]
            conds.append([g if rng.random() < 0.5 else [list(x) for x in g], row])
        perm = list(range(len(rows)))
        if not fixed_order:
            rng.shuffle(perm)
        rows = [rows[i] for i in perm]
        conds = [conds[i] for i in perm]
        case = {"self": self_, "rank": rank, "dom": dom[self_ - 1], "rows": rows, "ev": []}
        how = rng.choice(["make", "build"])

        def make():
            m = B()
            if how == "make":
                f = m.make_node_func(names[self_ - 1], conds)
                return f, None
            allc = {names[self_ - 1]: conds}
            for p in parents:
                allc[names[p - 1]] = [[[], {x: 1.0 / dom[p - 1] for x in values[p - 1]}]]
            keys = list(allc)
            rng.shuffle(keys)
            bbn = m.build_bbn_from_conditionals({k: allc[k] for k in keys})
            node = [x for x in bbn.nodes if x.variable_name == names[self_ - 1]][0]
            return node.func, bbn.domains[names[self_ - 1]]

        kind, r = guarded(make)
        if kind != "ok":
            case["ev"].append({"op": "make", "out": kind})
            yield case, {"names": names, "values": repr(values), "how": how}
            continue
        func, domain = r
        from causalnex.ebaybbn.utils import get_args

        kind, args = guarded(lambda: [names.index(a) + 1 if a in names else 0 for a in get_args(func)])
        e = {"op": "args", "out": kind}
        if kind == "ok":
            e["names"] = args
        case["ev"].append(e)
        if kind == "ok" and sorted(args) == list(range(1, n + 1)):
            for combo in itertools.product(*[range(1, dom[v - 1] + 1) for v in args]):
                kind, p = guarded(lambda: func(*[values[v - 1][k - 1] for v, k in zip(args, combo)]))
                got = codes.get(repr(p), 0) if kind == "ok" else 0
                case["ev"].append({"op": "call", "out": kind, "a": list(combo), "got": got})
        if domain is not None:
            vs = values[self_ - 1]
            case["ev"].append({"op": "domain", "out": "ok",
                               "values": sorted({([i + 1 for i, y in enumerate(vs) if type(y) is type(x) and y == x] or [0])[0] for x in domain})})
        yield case, {"names": names, "values": repr(values), "how": how}


# ------------------------------------------------------------- C08 moral graph


def read_adj(g, fnames, names):
    n = len(fnames)
    adj, vars_ = [[] for _ in range(n)], [0] * n
    for node in g.nodes:
        i = fnames.index(node.name) if node.name in fnames else None
        if i is None:
            continue
        adj[i] = [fnames.index(x.name) + 1 if x.name in fnames else 0 for x in node.neighbours]
        vars_[i] = names.index(node.variable_name) + 1 if node.variable_name in names else 0
    return {"nodes": len(g.nodes), "adj": adj, "vars": vars_}


def C08(rng, shard, nshards, tier):
    import itertools

    nets = [(net, labels, None) for net, labels in families(rng, shard, nshards, tier, scale=2.0)]
    joined = ((net, None, names) for net, names in (gen.joined_net(rng) for _ in range(20 if tier != "thorough" else 200)))
    for net, labels, names in itertools.chain(nets, joined):
        pres = gen.Presentation(rng, net, labels=labels, names=names)
        case = {"n": net["n"], "pa": net["pa"], "ev": []}
        kind, bbn = guarded(pres.build)
        if kind != "ok":
            continue
        m = B()

        def step(op, fn):
            kind, r = guarded(fn)
            e = {"op": op, "out": kind}
            if kind == "ok":
                e.update(r)
            case["ev"].append(e)
            return kind == "ok"

        def dag():
            intro, par, chi = read_nodes(bbn, pres)
            return {"par": par, "chi": chi}

        rd = lambda g: read_adj(g, pres.fnames, pres.names)  # noqa: E731
        k1, gu = guarded(lambda: m.make_undirected_copy(bbn))
        if k1 != "ok":
            case["ev"].append({"op": "undirected", "out": k1})
            yield case, pres.label()
            continue
        step("undirected", lambda: rd(gu))
        k2, gm = guarded(lambda: m.make_moralized_copy(gu, bbn))
        if k2 != "ok":
            case["ev"].append({"op": "moral", "out": k2})
            yield case, pres.label()
            continue
        step("moral", lambda: rd(gm))
        step("undirected", lambda: rd(gu))
        step("dag", dag)
        if rng.random() < 0.3:
            # triangulating one moral graph leaves the copies it came from alone
            guarded(lambda: m.triangulate(gm))
            step("undirected", lambda: rd(gu))
            step("moral", lambda: rd(m.make_moralized_copy(gu, bbn)))
            step("dag", dag)
        yield case, pres.label()


# ------------------------------------------------------------- C09 triangulation


def C09(rng, shard, nshards, tier):
    import itertools

    q = tier != "thorough"
    m = B()
    from causalnex.ebaybbn.graph import UndirectedGraph, UndirectedNode

    graphs = []
    k = 0
    for n in (1, 2, 3, 4, 5):
        pairs = list(itertools.combinations(range(1, n + 1), 2))
        for mask in range(1 << len(pairs)):
            k += 1
            if k % nshards == shard:
                graphs.append((n, [p for i, p in enumerate(pairs) if mask >> i & 1]))
    for _ in range(60 if q else 900):
        n = rng.randint(5, 11)
        d = rng.choice([0.15, 0.3, 0.5, 0.7])
        graphs.append((n, [p for p in itertools.combinations(range(1, n + 1), 2) if rng.random() < d]))
    for _ in range(20 if q else 300):  # cycles and grids: they need fill
        n = rng.randint(4, 9)
        order = rng.sample(range(1, n + 1), n)
        es = {tuple(sorted((order[i], order[(i + 1) % n]))) for i in range(n)}
        graphs.append((n, sorted(es)))
    for _ in range(60 if q else 800):  # moral graphs of networks
        net = gen.random_net(rng, 4, 9, maxdom=2, maxp=4, maxjoint=10 ** 6)
        pairs = set()
        for v in range(net["n"]):
            fam = net["pa"][v] + [v + 1]
            pairs |= {tuple(sorted(p)) for p in itertools.combinations(fam, 2)}
        graphs.append((net["n"], sorted(pairs)))
    for n, pairs in graphs:
        names = gen.var_names(rng, n)
        fnames = ["f_" + x for x in names] if rng.random() < 0.5 else ["n%d" % i for i in rng.sample(range(100), n)]
        nodes = [UndirectedNode(f) for f in fnames]
        for node, x in zip(nodes, names):
            node.variable_name = x
        ps = [tuple(rng.sample(p, 2)) for p in pairs]
        rng.shuffle(ps)
        for a, b in ps:
            nodes[a - 1].neighbours.append(nodes[b - 1])
            nodes[b - 1].neighbours.append(nodes[a - 1])
        order = nodes[:]
        rng.shuffle(order)
        g = UndirectedGraph(order)
        prio = rng.choice(["fill", "fill", "fill", "rank", "degree"])
        rank = rng.sample(range(1, n + 1), n)
        if prio == "rank" and rng.random() < 0.4:
            rank = [rng.randint(1, 3) for _ in range(n)]
        case = {"n": n, "adj": [[fnames.index(x.name) + 1 for x in node.neighbours] for node in nodes], "prio": prio, "rank": rank, "ev": []}
        # the same ranks as whole numbers, fractions, or in two components
        form = rng.choice([lambda r: [r, 2], lambda r: [r / 16, 2], lambda r: [(r + 1) // 3, (r + 1) % 3], lambda r: [0, -1 / r]])
        args = {"fill": (), "rank": (lambda nd: form(rank[fnames.index(nd.name)]),),
                "degree": (lambda nd: [len(set(x.name for x in nd.neighbours)), 2],)}[prio]
        kind, r = guarded(lambda: m.triangulate(g, *args))
        if kind == "ok":
            def read():
                cliques, ordering = r
                es = [{"op": "eliminate", "out": "ok", "v": fnames.index(x) + 1 if x in fnames else 0} for x in ordering]
                cl = [sorted(fnames.index(x.name) + 1 if x.name in fnames else 0 for x in c.nodes) for c in cliques]
                es.append({"op": "end", "out": "ok", "adj": [[fnames.index(x.name) + 1 for x in node.neighbours] for node in nodes], "cliques": cl})
                return es
            kind, es = guarded(read)
        case["ev"] = es if kind == "ok" else [{"op": "triangulate", "out": kind}]
        yield case, {"names": fnames, "edges": pairs, "priority": prio}


# ------------------------------------------------------------- C10 join tree


def read_tree(jt, pres):
    cl, sp = list(jt.clique_nodes), list(jt.sepset_nodes)
    cid = {id(c): i + 1 for i, c in enumerate(cl)}
    sid = {id(s): i + 1 for i, s in enumerate(sp)}
    return {"cliques": [[pres.var(x) for x in c.variable_names] for c in cl],
            "seps": [{"vars": [pres.var(x) for x in s.variable_names], "nb": [cid.get(id(x), 0) for x in s.neighbours]} for s in sp],
            "cnb": [[sid.get(id(x), 0) for x in c.neighbours] for c in cl],
            "strange": len(jt.nodes) - len(cl) - len(sp)}


def C10(rng, shard, nshards, tier):
    import itertools

    m = B()
    bulky = ((gen.bulky_net(rng), None) for _ in range(8 if tier != "thorough" else 80))
    for net, labels in itertools.chain(families(rng, shard, nshards, tier, scale=2.0), bulky):
        pres = gen.Presentation(rng, net, labels=labels)
        kind, bbn = guarded(pres.build)
        if kind != "ok":
            continue
        case = {"n": net["n"], "pa": net["pa"], "ev": []}
        for rep in range(2 if net["n"] < 20 else 1):
            if rep == 0:
                fn = bbn.build_join_tree
            elif rng.random() < 0.6:
                rank = {x: rng.randint(1, net["n"]) for x in pres.fnames}
                fn = lambda: m.build_join_tree(bbn, lambda nd: [rank[nd.name], 2])  # noqa: E731
            else:
                fn = lambda: m.build_join_tree(bbn, lambda nd: [len(set(nd.neighbours)), 2])  # noqa: E731
            kind, r = guarded(lambda: read_tree(fn(), pres))
            e = {"op": "tree", "out": kind}
            if kind == "ok":
                e.update(r)
            case["ev"].append(e)
        yield case, pres.label()


# ------------------------------------------------------------- C11 / C12 potentials


def key_index(pres, vars_, key):
    """Index (0-based) of a potential table key ((name, value), ...) for variables vars_, or None."""
    d = {}
    for name, value in key:
        v = pres.var(name)
        k = pres.val(v, value) if v else 0
        if not k or v in d:
            return None
        d[v] = k
    if set(d) != set(vars_):
        return None
    i = 0
    for v in vars_:
        i = i * pres.net["dom"][v - 1] + d[v] - 1
    return i


def read_table(pres, node, vars_, M, unit=1):
    size = 1
    for v in vars_:
        size *= pres.net["dom"][v - 1]
    out = [[0, 0]] * size
    bad = False
    for key, p in node.potential_tt.items():
        i = key_index(pres, vars_, key)
        if i is None:
            bad = True
        else:
            out[i] = ratio2(p * unit, M)
    if bad:
        out[0] = [0, 0]
    return out


def ratio2(p, M):
    """Like ratio, for non-negative potentials of any moderate size."""
    try:
        p = float(p)
    except Exception:
        return [0, 0]
    if not math.isfinite(p) or p < -1e-9 or p > 46340:
        return [0, 0]
    f = Fraction(p).limit_denominator(M)
    if abs(f - Fraction(p)) > Fraction(max(1, int(p)), 10 ** 9) or f.numerator > 46340:
        return [0, 0]
    return [f.numerator, f.denominator]


def small_families(rng, shard, nshards, tier, maxjoint):
    for net, labels in families(rng, shard, nshards, tier, scale=0.6, small_only=True):
        if math.prod(net["dom"]) <= maxjoint:
            yield net, labels


def C11(rng, shard, nshards, tier):
    for net, labels in small_families(rng, shard, nshards, tier, 300):
        pres = gen.Presentation(rng, net, labels=labels)
        kind, bbn = guarded(pres.build)
        if kind != "ok":
            continue
        kind, jt = guarded(bbn.build_join_tree)
        if kind != "ok":
            continue
        M = gen.total(net)
        cl = list(jt.clique_nodes)
        cvars = [[pres.var(x) for x in c.variable_names] for c in cl]
        case = {"net": net, "cliques": cvars, "ev": []}
        kind, asg = guarded(lambda: jt.assign_clusters(bbn))
        e = {"op": "assign", "out": kind}
        if kind == "ok":
            def where():
                w = [[] for _ in range(net["n"])]
                for c, nodes in asg.items():
                    ci = [i for i, x in enumerate(cl) if x is c]
                    for nd in nodes:
                        w[pres.var(nd.variable_name) - 1].append(ci[0] + 1)
                return {"where": w}
            kind, r = guarded(where)
            e["out"] = kind
            if kind == "ok":
                e.update(r)
        case["ev"].append(e)
        if kind != "ok":
            yield case, pres.label()
            continue
        for rep in range(4):
            ev = {} if rep == 0 and rng.random() < 0.6 else gen.random_evidence(rng, net, possible=rng.random() < 0.8)

            def init():
                if not ev and rng.random() < 0.5:
                    jt.initialize_potentials(asg, bbn)
                else:
                    jt.initialize_potentials(asg, bbn, pres.evidence(ev))
                q = [read_table(pres, c, vs, M) for c, vs in zip(cl, cvars)]
                neutral = True
                for s in jt.sepset_nodes:
                    vs = [pres.var(x) for x in s.variable_names]
                    if any(r != [1, 1] for r in read_table(pres, s, vs, 1)):
                        neutral = False
                return {"q": q, "neutral": neutral}

            kind, r = guarded(init)
            e = {"op": "init", "e": evseq(net, ev), "out": kind}
            if kind == "ok":
                e.update(r)
            case["ev"].append(e)
            if rng.random() < 0.6:
                guarded(jt.propagate)
        yield case, pres.label()


def lcm(a, b):
    return a * b // math.gcd(a, b)


def C12(rng, shard, nshards, tier):
    for net, labels in small_families(rng, shard, nshards, tier, 220):
        pres = gen.Presentation(rng, net, labels=labels)
        kind, bbn = guarded(pres.build)
        if kind != "ok":
            continue
        m = B()
        if rng.random() < 0.35:
            rank = {x: rng.randint(1, net["n"]) for x in pres.fnames}
            kind, jt = guarded(lambda: m.build_join_tree(bbn, lambda nd: [rank[nd.name], 2]))
        else:
            kind, jt = guarded(bbn.build_join_tree)
        if kind != "ok":
            continue
        cl, sp = list(jt.clique_nodes), list(jt.sepset_nodes)
        cvars = [[pres.var(x) for x in c.variable_names] for c in cl]
        svars = [[pres.var(x) for x in s.variable_names] for s in sp]
        kind, asg = guarded(lambda: jt.assign_clusters(bbn))
        if kind != "ok":
            continue
        case = {"dom": net["dom"], "cliques": cvars, "seps": svars, "ev": []}
        roots = cl[:]
        rng.shuffle(roots)
        roots = [None] + roots[: 4 if tier != "thorough" else 12]
        usable = True
        for root in roots:
            ev = {} if rng.random() < 0.3 else gen.random_evidence(rng, net)
            custom = rng.random() < 0.3
            # potentials may be in any unit: those of cluster i are read in units of 2 ** -shift[i]
            shift = [rng.choice([0, 30, 45, 60, -20]) for _ in cl] if rng.random() < 0.4 else [0] * len(cl)
            while abs(sum(shift)) > 900:
                shift[rng.randrange(len(shift))] = 0
            unit = 2.0 ** sum(shift)

            def init():
                jt.initialize_potentials(asg, bbn, pres.evidence(ev))
                if custom:
                    budget = 40000
                    for c in cl:
                        hi = 3
                        tt = {k: rng.choice([0, 1, 1, 2, hi]) for k in c.potential_tt}
                        c.potential_tt = tt
                for c, k in zip(cl, shift):
                    if k:
                        c.potential_tt = {x: v * 2.0 ** -k for x, v in c.potential_tt.items()}
                tabs = [read_table(pres, c, vs, gen.total(net), 2.0 ** k) for c, vs, k in zip(cl, cvars, shift)]
                return tabs

            kind, tabs = guarded(init)
            if kind != "ok" or any(r[1] == 0 for t in tabs for r in t):
                usable = False  # initial potentials are the matter of C11
                break
            den, num = [], []
            for t in tabs:
                d = 1
                for r in t:
                    d = lcm(d, r[1])
                den.append(d)
                num.append([r[0] * (d // r[1]) for r in t])
            D = math.prod(den)
            bound = math.prod(sum(t) for t in num)
            if D > 40000 or (bound > 40000 and (custom or bound > 10 ** 7) and joint_sum(net, cvars, num) > 40000):
                continue
            case["ev"].append({"op": "potentials", "out": "ok", "num": num, "den": den})
            again = [root]
            if rng.random() < 0.5:
                again.append(rng.choice(cl))
            if rng.random() < 0.15:
                again.append(None)
            for r0 in again:
                kind, _ = guarded(lambda: jt.propagate(starting_clique=r0) if r0 is not None else jt.propagate())
                e = {"op": "propagate", "out": kind}
                if kind == "ok":
                    kind, r = guarded(lambda: ([read_table(pres, c, vs, D, unit) for c, vs in zip(cl, cvars)],
                                               [read_table(pres, s, vs, D, unit) for s, vs in zip(sp, svars)]))
                    e["out"] = kind
                    if kind == "ok":
                        e["tc"], e["ts"] = r
                case["ev"].append(e)

                def marg():
                    out = [[[0, 0]] * k for k in net["dom"]]
                    for nd in bbn.nodes:
                        v = pres.var(nd.variable_name)
                        for key, p in jt.marginal(nd).items():
                            i = key_index(pres, [v], key)
                            if i is not None:
                                out[v - 1] = out[v - 1][:]
                                out[v - 1][i] = ratio2(p * unit, D)
                    return out
                kind, r = guarded(marg)
                e = {"op": "marginals", "out": kind}
                if kind == "ok":
                    e["m"] = r
                case["ev"].append(e)
        if usable and case["ev"]:
            yield case, pres.label()


def joint_sum(net, cvars, num):
    import itertools

    s = 0
    for x in itertools.product(*[range(k) for k in net["dom"]]):
        w = 1
        for vs, t in zip(cvars, num):
            i = 0
            for v in vs:
                i = i * net["dom"][v - 1] + x[v - 1]
            w *= t[i]
            if not w:
                break
        s += w
    return s


# ------------------------------------------------------------- C13 / C14 samples


def craft_rng(rng, mode):
    """Put the global generator into a state whose next outputs are extreme."""

    def untemper(y):
        y ^= y >> 18
        y ^= (y << 15) & 0xEFC60000
        t = y
        for _ in range(5):
            t = y ^ ((t << 7) & 0x9D2C5680)
        y = t
        t = y
        for _ in range(3):
            t = y ^ (t >> 11)
        return t & 0xFFFFFFFF

    words = []
    for i in range(624):
        if mode == "zeros":
            w = 0
        elif mode == "ones":
            w = 0xFFFFFFFF if rng.random() < 0.8 else rng.getrandbits(32)
        elif mode == "mixed":
            w = rng.choice([0, 0, 0xFFFFFFFF, 0x80000000, rng.getrandbits(32)])
        else:
            w = rng.getrandbits(32)
        words.append(untemper(w))
    random.setstate((3, tuple(words) + (0,), None))


def C13(rng, shard, nshards, tier):
    for net, labels in families(rng, shard, nshards, tier, scale=1.0, big=False):
        alike = rng.random() < 0.25 and max(net["dom"]) <= 10
        pres = gen.Presentation(rng, net, labels=labels, values=[gen.twins(rng, k) for k in net["dom"]] if alike else None)
        kind, bbn = guarded(pres.build)
        if kind != "ok":
            continue
        case = {"net": net, "ev": []}
        for rep in range(5):
            ev = gen.random_evidence(rng, net, possible=True) if rep else {}
            n = rng.choice([0, 1, 1, 2, 3, 5, 20]) if not alike else 20
            if net["n"] > 7:
                n = min(n, 2 if net["n"] <= 10 else 1)
            kw = pres.evidence(ev)
            before = list(kw.items())
            mode = rng.choice(["zeros", "ones", "mixed", "mixed", "plain"] if not alike else ["mixed", "plain", "plain"])
            craft_rng(rng, mode)
            if not kw and rng.random() < 0.5:
                fn = (lambda: bbn.draw_samples(n=n)) if n != 1 or rng.random() < 0.5 else (lambda: bbn.draw_samples())
            elif rng.random() < 0.5:
                fn = lambda: bbn.draw_samples(kw, n)  # noqa: E731
            else:
                fn = lambda: bbn.draw_samples(query=kw, n=n)  # noqa: E731
            kind, res = guarded(fn)
            e = {"op": "sample", "e": evseq(net, ev), "n": n, "out": kind, "random": mode,
                 "args": "same" if list(kw.items()) == before else "changed"}
            if kind == "ok":
                def read():
                    xs, extra = [], 0
                    for s in res:
                        x = [0] * net["n"]
                        for name, value in s.items():
                            v = pres.var(name)
                            if not v:
                                extra += 1
                            else:
                                x[v - 1] = pres.val(v, value)
                        xs.append(x)
                    return {"samples": xs, "extra": extra,
                            "distinct": len({id(s) for s in res}) == len(res) and all(s is not kw for s in res)}
                kind, r = guarded(read)
                e["out"] = kind
                if kind == "ok":
                    e.update(r)
            else:
                e["exc"] = type(res).__name__
            case["ev"].append(e)
        yield case, pres.label()


def C14(rng, shard, nshards, tier):
    q = tier != "thorough"
    m = 4 if q else 20
    done = 0
    while done < m:
        N = 12000 if q else 40000
        rare = done % 4 == 3
        if rare:  # many values, some of them rare
            net = gen.rare_net(rng)
            N = 80000
        elif done % 4 == 1:  # more variables, few of them random
            net = rng.choice([lambda: gen.wide_net(rng, 6), lambda: gen.sparse_net(rng, rng.randint(6, 9), coins=rng.randint(3, 4), maxp=3, dens=0.4)])()
        else:
            net = gen.random_net(rng, 2, 4, maxdom=3, budget=64, zeros=rng.choice(["none", "some"]), density=rng.choice([0.6, 0.9]))
        S = gen.support(net, {})
        if not S or len(S) < 3 or len(S) > 60:
            continue
        ev = {} if rare or done % 2 == 0 else gen.random_evidence(rng, net, possible=True, size=1)
        if ev:
            # evidence on a variable with parents, so that it matters for the others
            withp = [v for v in range(1, net["n"] + 1) if net["pa"][v - 1]]
            full = gen.random_evidence(rng, net, possible=True, size=net["n"])
            ev = {withp[-1]: full[withp[-1]]} if withp else ev
        done += 1
        pres = gen.Presentation(rng, net)
        kind, bbn = guarded(pres.build)
        if kind != "ok":
            continue
        random.seed(rng.random())
        case = {"net": net, "ev": []}
        kind, res = guarded(lambda: bbn.draw_samples(pres.evidence(ev), N), seconds=200)
        e = {"op": "sample", "e": evseq(net, ev), "n": N, "out": kind}
        if kind == "ok":
            def count():
                cells, seq = {}, []
                for s in res:
                    x = tuple(pres.val(v, s[pres.names[v - 1]]) for v in range(1, net["n"] + 1))
                    cells[x] = cells.get(x, 0) + 1
                    seq.append(x)
                keys = sorted(cells)
                e["cells"] = [[list(x), cells[x]] for x in keys]
                e["lags"] = []
                for lag in [] if rare else [1, 2, 3] + rng.sample(range(4, 40), 2 if q else 6):
                    pairs, k = {}, 0
                    for i in range(len(seq) - lag):
                        if i // lag % 2 == 0:  # disjoint pairs
                            pairs[seq[i], seq[i + lag]] = pairs.get((seq[i], seq[i + lag]), 0) + 1
                            k += 1
                    e["lags"].append({"lag": lag, "n": k, "p": [[i + 1, j + 1, pairs.get((a, b), 0)] for i, a in enumerate(keys) for j, b in enumerate(keys)]})
            kind, _ = guarded(count)
            e["out"] = kind
        case["ev"].append(e)
        yield case, pres.label()
