"""A very small stand-in for pgmpy (which is not installed): models and the two estimators causalnex uses."""
import itertools

import networkx as nx
import numpy as np
from worker import Inconclusive


class TabularCPD:
    def __init__(self, variable, values, parents, cards):
        self.variable = variable
        self.variables = [variable] + list(parents)
        self.values = np.array(values, dtype=float).reshape([len(values)] + list(cards))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Inconclusive("TabularCPD.%s" % name)


class MaximumLikelihoodEstimator:
    pass


class BayesianEstimator:
    pass


class BayesianModel(nx.DiGraph):
    def __init__(self, ebunch=None):
        super().__init__()
        self.cpds = []
        if ebunch is not None:
            self.add_edges_from(ebunch)

    def add_edge(self, u, v, **kw):
        if u == v or (u in self and v in self and nx.has_path(self, v, u)):
            raise ValueError("Loops are not allowed")
        super().add_edge(u, v, **kw)

    def add_edges_from(self, ebunch, **kw):
        for e in ebunch:
            self.add_edge(e[0], e[1])

    def get_parents(self, node):
        return list(self.predecessors(node))

    def get_cpds(self, node=None):
        if node is None:
            return self.cpds
        for c in self.cpds:
            if c.variable == node:
                return c

    def fit(self, data, estimator=None, state_names=None, prior_type=None, equivalent_sample_size=None, **kw):
        if kw:
            raise Inconclusive("fit(%s)" % sorted(kw))
        self.cpds = []
        for node in self.nodes:
            parents = sorted(self.predecessors(node))
            for x in [node] + parents:
                for s in data[x].values.tolist():
                    if s not in state_names[x]:
                        raise ValueError("Data contains unexpected states for variable: %s." % x)
            cards = [len(state_names[p]) for p in parents]
            cols = list(itertools.product(*[state_names[p] for p in parents]))
            counts = np.zeros((len(state_names[node]), len(cols)))
            pv = [data[p].values.tolist() for p in parents]
            for r, s in enumerate(data[node].values.tolist()):
                counts[list(state_names[node]).index(s), cols.index(tuple(c[r] for c in pv))] += 1
            if estimator is BayesianEstimator:
                if prior_type == "K2":
                    counts += 1
                elif prior_type == "BDeu":
                    counts += float(equivalent_sample_size) / counts.size
                else:
                    raise ValueError("'prior_type' not specified")
            elif estimator is not MaximumLikelihoodEstimator:
                raise Inconclusive("estimator %r" % (estimator,))
            else:
                counts[:, counts.sum(axis=0) == 0] = 1
            self.cpds.append(TabularCPD(node, counts / counts.sum(axis=0), parents, cards))

    def _marginals(self, data):
        """Exact posterior of every variable without a column, row by row, by enumeration."""
        for c in data.columns:
            if c not in self:
                raise ValueError("Data has variables which are not in the model")
        free = [v for v in self.nodes if v not in data.columns]
        if not free:
            raise ValueError("No variable missing in data. Nothing to predict")
        tabs = {c.variable: c for c in self.cpds}
        out = {v: [] for v in free}
        for r in range(len(data)):
            row = {c: int(data[c].values[r]) for c in data.columns}
            acc = {v: np.zeros(tabs[v].values.shape[0]) for v in free}
            for combo in itertools.product(*[range(tabs[v].values.shape[0]) for v in free]):
                row.update(zip(free, combo))
                p = 1.0
                for v, t in tabs.items():
                    p *= t.values[tuple(row[x] for x in t.variables)]
                for v, k in zip(free, combo):
                    acc[v][k] += p
            for v in free:
                out[v].append(acc[v] / acc[v].sum())
        return out

    def predict(self, data, **kw):
        if kw:
            raise Inconclusive("predict(%s)" % sorted(kw))
        import minipandas as pd

        return pd.DataFrame({v: np.array([int(np.argmax(p)) for p in ps], dtype=int) for v, ps in self._marginals(data).items()}, index=data.index)

    def predict_probability(self, data, **kw):
        if kw:
            raise Inconclusive("predict_probability(%s)" % sorted(kw))
        import minipandas as pd

        cols = {}
        for v, ps in self._marginals(data).items():
            for k in range(len(ps[0])):
                cols["%s_%d" % (v, k)] = np.array([p[k] for p in ps])
        return pd.DataFrame(cols, index=data.index)
