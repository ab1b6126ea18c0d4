"""Brings together what several worker processes recorded about the same network."""


def C05(cases):
    by = {}
    for c in cases:
        p, seed, shard, i = c["case"]["id"].split("/")
        by.setdefault(int(i), []).append((int(shard), c))
    out = []
    for i in sorted(by):
        group = [c for _, c in sorted(by[i], key=lambda t: t[0])]
        first = group[0]
        out.append({"case": {"id": first["case"]["id"], "ev": [e for c in group for e in c["case"]["ev"]]},
                    "label": [c["label"] for c in group]})
    return out
