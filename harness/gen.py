"""Random and enumerated belief networks, and the many ways to present one to causalnex.

A *net* is what the specification sees: variables 1..n numbered so that parents come
first, ``dom[v]`` the number of values, ``pa[v]`` the parents, and for every row of the
table of v (parents' values in mixed radix, first parent most significant) integer
weights that add up to ``D[v]``; the probability of an entry is weight / D.
A *presentation* gives variables and values names, picks argument orders, factor
orders and one of the ways to build a network.
"""
import itertools
import math
import pickle

MAXZ = 40000


def rows(net, v):
    r = 1
    for p in net["pa"][v]:
        r *= net["dom"][p - 1]
    return r


def total(net):
    z = 1
    if "bound" in net:
        return net["bound"]
    for d in net["D"]:
        z *= d
    return z


def composition(rng, total_, k, zeros):
    """k non-negative integers that add up to total_."""
    w = [0] * k
    if zeros == "det" or total_ == 1:
        w[rng.randrange(k)] = total_
        return w
    if zeros == "none" and total_ >= k:
        w = [1] * k
        left = total_ - k
    else:
        left = total_
    for _ in range(left):
        w[rng.randrange(k)] += 1
    return w


def fill_tables(rng, n, pa, dom, budget=MAXZ, zeros=None, dchoices=(1, 2, 3, 4, 5, 10)):
    """Pick D and weights so that the product of the D stays within budget."""
    D = [1] * n
    order = list(range(n))
    rng.shuffle(order)
    left = budget
    for v in order:
        c = [d for d in dchoices if d <= left]
        # leave room for the others: prefer moderate denominators
        big = [d for d in c if d > 1]
        d = rng.choice(big) if big and rng.random() < 0.9 else rng.choice(c)
        D[v] = d
        left //= d
    w = []
    for v in range(n):
        z = zeros or rng.choice(["some", "some", "none", "det" if rng.random() < 0.3 else "some"])
        r = 1
        for p in pa[v]:
            r *= dom[p - 1]
        w.append([composition(rng, D[v], dom[v], z) for _ in range(r)])
    return {"n": n, "dom": dom, "pa": pa, "D": D, "w": w}


def graded(rng, make):
    while True:
        net = graded_net(rng, make())
        if net is not None:
            return net


def graded_net(rng, net):
    """Some impossible entries of a net become merely very improbable (eps to the power g); row sums stay one but for rounding."""
    net = dict(net, w=[[list(r) for r in rws] for rws in net["w"]])
    gmax = rng.choice([1, 2])
    net["g"] = [[[0] * len(r) for r in rws] for rws in net["w"]]
    share = rng.choice([0.3, 0.7, 1.0])
    for v in range(net["n"]):
        for r, row in enumerate(net["w"][v]):
            left = net["D"][v]
            for k in rng.sample(range(len(row)), len(row)):
                if row[k] == 0 and left and rng.random() < share:
                    row[k] = rng.randint(1, min(left, 2))
                    left -= row[k]
                    net["g"][v][r][k] = rng.randint(1, gmax)
    net["eps"] = min(rng.choice([48, 60, 90]), 900 // (gmax * net["n"]))
    assert net["eps"] >= 48
    bound = 1
    for rws in net["w"]:
        bound *= max(sum(r) for r in rws)
    net["bound"] = bound  # of every sum of weights
    return net if bound <= 46000 else None


def random_dag(rng, n, maxp=3, density=None):
    density = rng.choice([0.2, 0.4, 0.6, 0.9]) if density is None else density
    pa = []
    for v in range(1, n + 1):
        cand = [u for u in range(1, v) if rng.random() < density]
        rng.shuffle(cand)
        pa.append(cand[:maxp])
    return pa


def random_net(rng, nmin=1, nmax=6, maxdom=4, maxp=3, maxjoint=800, budget=MAXZ, zeros=None, density=None):
    while True:
        n = rng.randint(nmin, nmax)
        dom = [rng.choice([1, 2, 2, 2, 3, 3, 4, 5][: (8 if maxdom >= 5 else 7 if maxdom == 4 else 6 if maxdom == 3 else 4)]) for _ in range(n)]
        if math.prod(dom) > maxjoint:
            continue
        pa = random_dag(rng, n, maxp, density)
        return fill_tables(rng, n, pa, dom, budget, zeros)


def sparse_net(rng, n, coins=8, maxp=4, dens=0.5):
    """Many binary variables, most of them deterministic: large tree width, small support."""
    pa = random_dag(rng, n, maxp, dens)
    coin = set(rng.sample(range(n), min(coins, n)))
    D = [2 if v in coin else 1 for v in range(n)]
    w = []
    for v in range(n):
        r = 2 ** len(pa[v])
        w.append([composition(rng, D[v], 2, "some") for _ in range(r)])
    return {"n": n, "dom": [2] * n, "pa": pa, "D": D, "w": w}


def wide_net(rng, maxp=8):
    """A variable with many parents (some of them married to each other through it only), few of them random."""
    k = rng.randint(5, maxp)
    below = rng.randint(0, 3)
    n = k + 1 + below
    pa = []
    for v in range(1, k + 1):
        pa.append([u for u in range(1, v) if rng.random() < rng.choice([0, 0, 0.15])][:2])
    pa.append(rng.sample(range(1, k + 1), k))
    for v in range(k + 2, n + 1):
        pa.append(rng.sample(range(1, v), rng.choice([1, 1, 2, 3])))
    coin = set(rng.sample(range(n), rng.randint(2, 6)))
    D = [2 if v in coin else 1 for v in range(n)]
    w = [[composition(rng, D[v], 2, "some") for _ in range(2 ** len(pa[v]))] for v in range(n)]
    return {"n": n, "dom": [2] * n, "pa": pa, "D": D, "w": w}


def bulky_net(rng, most=11):
    """Families of very different sizes that overlap."""
    pa, fams = [], []
    for size in rng.sample([rng.randint(8, most), rng.randint(3, most), rng.randint(2, 5), rng.randint(2, 5)], rng.randint(2, 4)):
        common = rng.sample(rng.choice(fams), rng.randint(1, min(4, size - 1))) if fams else []
        while len(common) < size:
            pa.append([])
            common.append(len(pa))
        rng.shuffle(common)
        pa.append(common)
        fams.append(common + [len(pa)])
    n = len(pa)
    D = [2 if rng.random() < 0.2 else 1 for _ in range(n)]
    w = [[composition(rng, D[v], 2, "some") for _ in range(2 ** len(pa[v]))] for v in range(n)]
    return {"n": n, "dom": [2] * n, "pa": pa, "D": D, "w": w}


def joined_net(rng):
    """Pairs of parents whose names give the same word when joined.  Returns net and names."""
    w = rng.choice(["abcde", "aabba", "x_y_x", "pqrst"])
    names, pa = [], []

    def var(x):
        if x not in names:
            names.append(x)
            pa.append([])
        return names.index(x) + 1
    pairs = [(var(w[:i]), var(w[i:])) for i in rng.sample(range(1, len(w)), rng.randint(2, len(w) - 1)) if w[:i] != w[i:]]
    for k, p in enumerate(pairs):
        p = list(p)
        if rng.random() < 0.2:
            p.append(rng.choice([u for u in range(1, len(names) + 1) if u not in p]))
        names.append("child%d" % k)
        pa.append(p)
    return fill_tables(rng, len(pa), pa, [2] * len(pa), dchoices=(1, 2)), names


def rare_net(rng):
    """One or two variables with many values, some of which are rare; probabilities are multiples of 1/1000."""
    dom = rng.choice([[rng.randint(5, 14)], [rng.randint(9, 14)], [2, rng.randint(6, 10)]])

    def row(k, d):
        w = [rng.choice([1, 2, 2, 3, 5, 8]) for _ in range(k)]
        big = rng.sample(range(k), rng.randint(1, 2))
        rest = d - sum(w)
        for i, b in enumerate(big):
            w[b] += rest // len(big) + (rest % len(big) if i == 0 else 0)
        return w
    if len(dom) == 1:
        return {"n": 1, "dom": dom, "pa": [[]], "D": [1000], "w": [[row(dom[0], 1000)]]}
    return {"n": 2, "dom": dom, "pa": [[], [1]], "D": [2, 1000], "w": [[[1, 1]], [row(dom[1], 1000) for _ in range(2)]]}


def chain_net(rng, n, coins=4, tree=False, parts=1):
    """A long chain or tree (or several): small tree width, few random nodes."""
    pa = []
    starts = set(rng.sample(range(n), parts)) | {0}
    for v in range(n):
        if v in starts:
            pa.append([])
        elif tree:
            pa.append([max(1, v + 1 - rng.randint(1, 6))])
        else:
            pa.append([v])
    coin = set(rng.sample(range(n), min(coins, n)))
    D = [2 if v in coin else 1 for v in range(n)]
    w = []
    for v in range(n):
        if D[v] == 2:
            rws = [composition(rng, 2, 2, "some") for _ in range(2 ** len(pa[v]))]
        elif pa[v]:
            a = rng.randrange(2)
            rws = [[1 - a, a], [a, 1 - a]] if rng.random() < 0.9 else [[1, 0], [1, 0]]
        else:
            rws = [[1, 0]]
        w.append(rws)
    return {"n": n, "dom": [2] * n, "pa": pa, "D": D, "w": w}


def all_dags(n):
    """All labelled DAGs on 1..n as parent lists, re-numbered topologically.

    Returned once per labelled DAG: (pa in topological numbering, label permutation)."""
    out = []
    edges = [(i, j) for i in range(n) for j in range(n) if i != j]
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for combo in itertools.product((0, 1, 2), repeat=len(pairs)):
        par = {i: set() for i in range(n)}
        for (i, j), c in zip(pairs, combo):
            if c == 1:
                par[j].add(i)
            elif c == 2:
                par[i].add(j)
        order, seen = [], set()
        while True:
            nxt = [v for v in range(n) if v not in seen and par[v] <= seen]
            if not nxt:
                break
            order.append(nxt[0])
            seen.add(nxt[0])
        if len(order) < n:
            continue
        num = {v: k + 1 for k, v in enumerate(order)}
        out.append(([sorted(num[p] for p in par[v]) for v in order], order))
    return out


# ---------------------------------------------------------------- presentations

LETTERS = list("abcdefghijklmnopqrstuvwxyz")


def var_names(rng, n, identifiers=True, labels=None):
    pools = ["letters", "case", "concat", "prefix", "words", "long", "pieces"]
    if not identifiers:
        pools += ["odd"]
    pool = rng.choice(pools)
    if labels is not None and rng.random() < 0.7:
        base = rng.sample(LETTERS, len(labels))
        base.sort()
        return [base[k] for k in labels]
    if pool == "letters" and n <= 26:
        return rng.sample(LETTERS, n)
    if pool == "case" and n <= 26:
        return rng.sample([c for x in "abcdefghijklm" for c in (x, x.upper())], n)
    if pool == "concat" and n <= 14:
        return rng.sample(["a", "b", "ab", "aa", "ba", "bb", "aab", "abb", "A", "B", "AB", "aB", "Ba", "abab"], n)
    if pool == "pieces" and n <= 20:
        # pieces of one word: many pairs give the same word when joined
        return rng.sample(sorted({w[i:j] for w in ("abcghj", "_abc_d") for i in range(6) for j in range(i + 1, 7)} - {"_"}), n)
    if pool == "prefix":
        return ["x" + str(i) for i in rng.sample(range(1, max(3 * n, 12)), n)]
    if pool == "words" and n <= 16:
        return rng.sample(["rain", "sprinkler", "name", "domains", "kwds", "n", "query", "f", "f_a", "a",
                           "_x", "evidence", "True_", "x_y", "node", "value"], n)
    if pool == "odd":
        base = ["a b", "1", "01", "x-y", "\u00e9", "x.y", "a,b", "0", "(a)", "a=b", "10", "2", "None", "f a", 'say "x"', "b\\", "a -> b", "a;b", "c\"]"]
        if n <= len(base):
            return rng.sample(base, n)
    return ["v%03d" % i for i in rng.sample(range(max(n, 10)), n)]


def fresh(x):
    """An equal object (where Python has more than one)."""
    return pickle.loads(pickle.dumps(x))


def twins(rng, k):
    """Values of which two print alike, as far as k allows."""
    pairs = rng.sample([[1, "1"], [0, "0"], [None, "None"], [2.5, "2.5"], [(1,), "(1,)"]], (k + 1) // 2)
    return [x for p in pairs for x in p][:k]


def value_names(rng, k):
    """k distinct (also under ==) hashable values, often falsy or of mixed type."""
    if k > 5:
        v = list(rng.choice([range(k), range(-1, k - 1), ["s%d" % i for i in range(k)], [i + 0.5 for i in range(k)], [(i,) for i in range(k)],
                             [i - 0.5 if i % 2 else str(i) for i in range(k)]]))
        rng.shuffle(v)
        return v
    pools = [list(range(k)), list(range(-1, k - 1)), ["s%d" % i for i in range(k)],
             rng.sample(["", "a", "b", "A", "no", "yes", "0", "1", "True", "None"], k),
             rng.sample([0, "0", None, "", "x", (0, 1), (), 2.5, -1], k),
             [i + 0.5 for i in range(k)], rng.sample([None, False, "a", 3, ("t",)], k), twins(rng, k)]
    if k == 2:
        pools += [[True, False], [False, True], [True, False], [0, 1], ["heavy", "light"]]
    v = list(rng.choice(pools))
    rng.shuffle(v)
    return v


class Presentation:
    """Names, orders and build style of a net."""

    def __init__(self, rng, net, style=None, labels=None, default_domain=True, names=None, values=None):
        n = net["n"]
        self.net = net
        self.style = style or rng.choice(["def", "argspec", "cond", "def", "cond"])
        self.names = names or var_names(rng, n, self.style == "def", labels)
        if self.style == "def" and not all(x.isidentifier() for x in self.names):
            self.style = "argspec"
        self.values = values or [value_names(rng, k) for k in net["dom"]]
        self.defaulted = set()
        if self.style != "cond" and default_domain:
            for v in range(n):
                if net["dom"][v] == 2 and rng.random() < 0.25 and (values is None or set(map(repr, self.values[v])) == {"True", "False"}):
                    if values is None:
                        self.values[v] = rng.sample([True, False], 2)
                    self.defaulted.add(v)
        # argument orders (position of the variable itself among its parents is free)
        self.args = []
        for v in range(n):
            a = net["pa"][v] + [v + 1]
            if rng.random() < 0.7:
                a = a[:]
                rng.shuffle(a)
            self.args.append(a)
        self.order = list(range(n))
        mode = rng.choice(["shuffle", "shuffle", "forward", "reverse"])
        if mode == "shuffle":
            rng.shuffle(self.order)
        elif mode == "reverse":
            self.order.reverse()
        self.as_list = rng.random() < 0.5 or n > 200
        self.domtype = rng.choice(["list", "tuple", "list", "set"])
        self.domorder = [rng.sample(range(k), k) for k in net["dom"]]
        self.rowseed = rng.randrange(1 << 30)
        self.numtype = rng.choice(["float", "mixed"])
        r = rng.random()
        if r < 0.55:
            self.fnames = ["f_" + x for x in self.names]
        elif r < 0.7:
            self.fnames = list(self.names)
        else:
            self.fnames = ["%s%d" % (rng.choice(["g", "f", "P", "factor_"]), i) for i in rng.sample(range(3 * n + 5), n)]
        if self.style != "cond" and rng.random() < 0.25:
            # names that speak of other variables than the one the factor is for
            pool = self.names + ["f_" + x for x in self.names] + ["P_" + x for x in self.names]
            for v in rng.sample(range(n), min(n, 12)):
                near = [self.names[p - 1] for p in net["pa"][v]] or self.names
                x = rng.choice(["", "f_", "f_"]) + rng.choice(near) if rng.random() < 0.7 else rng.choice(pool)
                if x not in self.fnames:
                    self.fnames[v] = x
                elif rng.random() < 0.5:
                    u = self.fnames.index(x)
                    self.fnames[u], self.fnames[v] = self.fnames[v], x
        if self.style == "cond":
            self.fnames = ["f_" + x for x in self.names]

    # -- tables
    def prob(self, v, vals):
        """Probability of the value index of v given all value indices (dict var -> index)."""
        net = self.net
        r = 0
        for p in net["pa"][v]:
            r = r * net["dom"][p - 1] + vals[p - 1]
        w = net["w"][v][r][vals[v]]
        d = net["D"][v]
        if net.get("g") and net["g"][v][r][vals[v]]:
            return w / d * 2.0 ** (-net["eps"] * net["g"][v][r][vals[v]])
        if self.numtype == "mixed" and w % d == 0:
            return w // d
        return w / d

    def table(self, v):
        """Values (in argument order) -> probability, for all combinations."""
        net = self.net
        args = self.args[v]
        tt = {}
        for combo in itertools.product(*[range(net["dom"][a - 1]) for a in args]):
            vals = {a - 1: c for a, c in zip(args, combo)}
            tt[tuple(self.values[a - 1][c] for a, c in zip(args, combo))] = self.prob(v, vals)
        return tt

    def factor(self, v):
        tt = self.table(v)
        names = [self.names[a - 1] for a in self.args[v]]
        if self.style == "def":
            ns = {"_tt": tt}
            exec("def %s(%s):\n    return _tt[(%s,)]" % (self.fnames[v], ", ".join(names), ", ".join(names)), ns)
            return ns[self.fnames[v]]

        def fn(*a):
            return tt[tuple(a)]

        fn.argspec = names
        fn.__name__ = self.fnames[v]
        return fn

    def conditionals(self):
        import random

        rng = random.Random(self.rowseed)
        net = self.net
        conds = {}
        for v in self.order:
            pa = net["pa"][v]
            rws = []
            for combo in itertools.product(*[range(net["dom"][p - 1]) for p in pa]):
                given = [[self.names[p - 1], self.values[p - 1][c]] for p, c in zip(pa, combo)]
                rng.shuffle(given)
                if rng.random() < 0.5:
                    given = [tuple(g) for g in given]
                vals = {p - 1: c for p, c in zip(pa, combo)}
                ks = list(range(net["dom"][v]))
                rng.shuffle(ks)
                row = {}
                for k in ks:
                    vals[v] = k
                    row[self.values[v][k]] = self.prob(v, dict(vals))
                rws.append([given, row])
            rng.shuffle(rws)
            conds[self.names[v]] = rws
        return conds

    def domains(self):
        out = {}
        for v in range(self.net["n"]):
            if v in self.defaulted:
                continue
            d = [self.values[v][k] for k in self.domorder[v]]
            out[self.names[v]] = d if self.domtype == "list" else tuple(d) if self.domtype == "tuple" else set(d)
        return out

    def factors(self):
        """The factor functions, to build several networks from (none for tables)."""
        return [self.factor(v) for v in self.order] if self.style != "cond" else None

    def build(self, fs=None):
        from causalnex.ebaybbn import bbn as B

        if self.style == "cond":
            return B.build_bbn_from_conditionals(self.conditionals())
        fs = fs or self.factors()
        if self.as_list:
            return B.build_bbn(fs, domains=self.domains())
        return B.build_bbn(*fs, domains=self.domains())

    # -- names back to indices
    def var(self, name):
        try:
            return self.names.index(name) + 1
        except ValueError:
            return 0

    def val(self, v, value):
        """1-based index of a value of variable v (1-based); 0 if it is none of them."""
        for i, x in enumerate(self.values[v - 1]):
            if type(x) is type(value) and x == value:
                return i + 1
        return 0

    def evidence(self, ev):
        """ev: dict var(1-based) -> value(1-based); values and names are equal to those of the net, but not the same objects."""
        return {fresh(self.names[v - 1]): fresh(self.values[v - 1][k - 1]) for v, k in ev.items()}

    def label(self):
        return {"style": self.style, "names": self.names, "values": [[repr(x) for x in vs] for vs in self.values],
                "order": [self.names[v] for v in self.order], "args": [[self.names[a - 1] for a in r] for r in self.args],
                "default_domain": sorted(self.names[v] for v in self.defaulted)}


def support(net, ev=None, cap=5000):
    """Assignments of positive weight that agree with ev, with weights (generator of inputs only)."""
    out = [((), 1)]
    for v in range(net["n"]):
        nxt = []
        for x, w in out:
            r = 0
            for p in net["pa"][v]:
                r = r * net["dom"][p - 1] + (x[p - 1] - 1)
            row = net["w"][v][r]
            for k in range(net["dom"][v]):
                if row[k] and (not ev or ev.get(v + 1, k + 1) == k + 1):
                    nxt.append((x + (k + 1,), w * row[k]))
        out = nxt
        if len(out) > cap:
            return None
    return out


def random_evidence(rng, net, possible=None, size=None):
    """A random evidence set; possible=True draws it from a possible assignment."""
    n = net["n"]
    if size is None:
        size = rng.choice([0, 1, 1, 2, 2, 3, n, rng.randint(0, n)])
    size = min(size, n)
    vs = rng.sample(range(1, n + 1), size)
    if possible is None:
        possible = rng.random() < 0.85
    if possible:
        x = []
        for v in range(n):
            r = 0
            for p in net["pa"][v]:
                r = r * net["dom"][p - 1] + (x[p - 1] - 1)
            row = net["w"][v][r]
            x.append(rng.choice([k + 1 for k in range(net["dom"][v]) if row[k]]))
        return {v: x[v - 1] for v in vs}
    return {v: rng.randint(1, net["dom"][v - 1]) for v in vs}
