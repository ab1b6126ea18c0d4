"""Driver for DynamicDataTransformer (C22)."""
import json
import os

import stubs
from worker import guarded


NAN = 55
REAL = {
    "f": [float, float, lambda x: x + 0.1, lambda x: x * 1e-9, lambda x: x * 16777217.0, lambda x: x * 1e15, lambda x: float("nan") if x == NAN else x + 0.3],
    "i": [int, int, lambda x: x * 16777217, lambda x: x * 1000003],
}


def scale(rng):
    """What the numbers of the description stand for in columns of floats and of integers."""
    return {k: rng.choice(v) for k, v in REAL.items()}


def frame(rng, names, cols, types, p, bad="", gaps=True, real=None):
    """A description of a frame and the frame itself."""
    import numpy as np

    pd = stubs.pandas()
    n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if bad != "order" else rng.randint(2, 6)
    if n == 0 and rng.random() < 0.7:
        n = 4
    t = rng.choice([0, 0, 1, -3, 100, 1600000000])
    idx = []
    for _ in range(n):
        idx.append(t)
        t += 1 if not gaps or rng.random() < 0.8 else rng.choice([2, 2, 3, p + 1, p + 2, 10])
    if bad == "order":
        k = rng.randrange(n - 1)
        idx[k], idx[k + 1] = idx[k + 1], idx[k]
    rows = [[rng.choice([rng.randint(-99, 99), rng.randint(-99, 99), NAN]) for _ in cols] for _ in range(n)]
    real = real or {"f": float, "i": int}
    data = {}
    for k, c in enumerate(cols):
        data[names[c]] = np.array([real[types[k]](r[k]) for r in rows], dtype={"f": float, "i": int}[types[k]])
    text = bad == "text"
    df = pd.DataFrame(data, index=np.array(idx, dtype=int) if bad != "floatidx" else np.array(idx, dtype=float), columns=[names[c] for c in cols])
    if text:
        c = rng.choice(cols)
        df[names[c]] = pd.Series(np.array(["t%d" % i for i in range(n)], dtype=object))
    desc = {"kind": "frame", "cols": list(cols), "types": "".join(types) if not text else "text", "text": text, "intidx": bad != "floatidx", "idx": idx, "rows": rows}
    if bad == "noframe":
        desc["kind"] = "other"
        df = rng.choice([df.values, [1, 2], "frame", None, {"a": 1}])
    return desc, df


def snap(x):
    pd = stubs.pandas()
    return repr((x.columns.tolist(), x.index.tolist(), x.values.tolist())) if isinstance(x, pd.DataFrame) else repr(x)


def inputs(rng, names, cols, types, p, bad="", real=None):
    m = rng.choice([1, 1, 2, 3])
    if bad == "none":
        return [], []
    out = []
    where = rng.randrange(m)
    for k in range(m):
        b = bad if k == where and bad in ("order", "text", "floatidx", "noframe") else ""
        cs, ts = list(cols), list(types)
        if bad == "cols" and m > 1 and k == 1:
            cs = cs[::-1] if len(cs) > 1 and rng.random() < 0.5 else cs[:-1] + [9]
            ts = [ts[cols.index(c)] if c in cols else "f" for c in cs]
        if bad == "types" and m > 1 and k == 1:
            ts[0] = "i" if ts[0] == "f" else "f"
        out.append(frame(rng, names, cs, ts, p, b, real=real))
    if bad == "noframe" and where == 0 and m == 1 and isinstance(out[0][1], list):
        # a bare list is a list of frames
        return inputs(rng, names, cols, types, p, bad, real)
    return [d for d, _ in out], [f for _, f in out]


def case(rng, tier):
    m = stubs.load("causalnex.structure.transformers")
    pd = stubs.pandas()
    p = rng.choice([1, 1, 2, 2, 3, 4])
    pool = rng.choice([["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"], list(range(10)), ["x_%d" % i for i in range(10)], [5, "05", "lag0", "a_lag1", 2, 0, "b", "c", "d", "zz"]])
    names = list(pool)
    rng.shuffle(names)
    cols = rng.sample(range(6), rng.randint(1, 4))
    types = [rng.choice("ffi") for _ in cols]
    if rng.random() < 0.5:
        types = [types[0]] * len(cols)
    ddt = m.DynamicDataTransformer(p=p) if rng.random() < 0.7 else m.DynamicDataTransformer(p)
    ev = []
    fitted = None
    real = scale(rng)
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["fit", "transform", "transform", "both"]) if fitted or rng.random() < 0.15 else rng.choice(["fit", "both"])
        bad = rng.choice(["order", "text", "floatidx", "noframe", "cols", "types", "none", "missing"]) if rng.random() < 0.3 else ""
        cs, ts = list(cols), list(types)
        if fitted and op == "transform" and bad == "" and rng.random() < 0.4:
            extra = rng.sample([6, 7, 8], rng.randint(0, 2))
            z = list(zip(cs + extra, ts + [rng.choice("fi") for _ in extra]))
            rng.shuffle(z)
            cs, ts = [c for c, _ in z], [t for _, t in z]
        if bad == "missing":
            if fitted and op == "transform":
                cs, ts = cs[:-1] + [8], ts
            bad = ""
        descs, frames = inputs(rng, names, cs, ts, p, bad, real)
        df = rng.choice([True, False])
        give = df is False or rng.random() < 0.5
        kw = {"return_df": df} if give and op != "transform" else {}
        arg = frames[0] if len(frames) == 1 and (rng.random() < 0.5) and not isinstance(frames[0], list) else frames
        if op == "fit":
            fn = lambda: ddt.fit(arg, **kw)  # noqa: E731
        elif op == "transform":
            fn = lambda: ddt.transform(arg)  # noqa: E731
        elif rng.random() < 0.5:
            fn = lambda: ddt.fit_transform(arg, **kw)  # noqa: E731
        else:
            fn = lambda: ddt.fit(arg, **kw).transform(arg)  # noqa: E731
        e = observe(op, fn, frames, descs, df, ddt, names, p, pd, real)
        fitted = fitted or (e["out"] == "ok")
        ev.append(e)
        if e["out"] == "inconclusive":
            break
    return {"p": p, "ev": ev}, {"names": repr(names)}


def observe(op, fn, frames, descs, df, ddt, names, p, pd, real=None):
    before = [snap(f) for f in frames]
    kind, r = guarded(fn)
    e = {"op": op, "frames": descs, "df": df, "out": kind, "exc": type(r).__name__ if kind == "raise" else "", "unchanged": [snap(f) for f in frames] == before,
         "isdf": False, "names": [], "rows": [], "split": [0, 0]}
    if kind == "raise" and e["exc"] not in ("NotFittedError", "TypeError") and isinstance(r, ValueError):
        e["exc"] = "ValueError"
    if kind == "ok" and op == "fit":
        if r is not ddt:
            e["out"] = "fit-returned-something-else"
    elif kind == "ok":
        k2, rr = guarded(lambda: read(r, names, e, p, pd, decoder(descs, real or {"f": float, "i": int})))
        if k2 != "ok":
            e["out"] = "unreadable" if k2 != "inconclusive" else k2
    return e


def generated(rng, h):
    """Two frames with the points of time of a behaviour of WindowsModel."""
    import numpy as np

    m = stubs.load("causalnex.structure.transformers")
    pd = stubs.pandas()
    p, names = h["p"], ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"]
    rng.shuffle(names)
    descs, frames = [], []
    types = rng.choice(["ff", "ii", "fi"])
    real = scale(rng)
    for o, idx in zip((1, 3), h["idx"]):
        rows = [[10 * t + o, 50 - 7 * t - o] for t in idx]
        descs.append({"kind": "frame", "cols": [0, 1], "types": types, "text": False, "intidx": True, "idx": idx, "rows": rows})
        data = {names[c]: np.array([real[types[c]](r[c]) for r in rows], dtype={"f": float, "i": int}[types[c]]) for c in (0, 1)}
        frames.append(pd.DataFrame(data, index=np.array(idx, dtype=int), columns=names[:2]))
    ddt = m.DynamicDataTransformer(p=p)
    df = rng.random() < 0.5
    ev = []
    if rng.random() < 0.5:
        ev.append(observe("fit", lambda: ddt.fit(frames, return_df=df), frames, descs, df, ddt, names, p, pd, real))
        if ev[0]["out"] == "ok":
            ev.append(observe("transform", lambda: ddt.transform(frames), frames, descs, df, ddt, names, p, pd, real))
    else:
        ev.append(observe("both", lambda: ddt.fit_transform(frames, return_df=df), frames, descs, df, ddt, names, p, pd, real))
    return {"p": p, "ev": ev}, {"names": repr(names)}


def decoder(descs, real):
    """The number of the description that a value of the output stands for."""
    look = {}
    for d in descs:
        if "t" not in d["types"]:
            for row in d["rows"]:
                for k, x in zip(d["types"], row):
                    look[float(real[k](x))] = x
    return lambda x: NAN if x != x else look.get(float(x), 777777)


def read(r, names, e, p, pd, num):
    if isinstance(r, pd.DataFrame):
        e["isdf"] = True
        look = {"%s_lag%d" % (names[c], l): [c, l] for c in range(10) for l in range(p + 1)}
        e["names"] = [look.get(c, [99, 99]) for c in r.columns.tolist()]
        e["rows"] = [[num(x) for x in row] for row in r.values.tolist()]
        if r.index.tolist() != list(range(len(r))):
            e["out"] = "unreadable"
    else:
        X, L = r
        e["split"] = [X.shape[1], L.shape[1]]
        if len(X) != len(L):
            e["out"] = "unreadable"
        e["rows"] = [[num(x) for x in a] + [num(x) for x in b] for a, b in zip(X.tolist(), L.tolist())]


def C22(rng, shard, nshards, tier):
    hs = json.load(open(os.environ["VERIF_GEN"]))
    for h in hs[shard::nshards]:
        yield generated(rng, h)
    for _ in range(250 if tier != "thorough" else 4000):
        yield case(rng, tier)
