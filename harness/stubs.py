"""Stand-ins for libraries that are not installed, and loading of single causalnex modules."""
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

from worker import Inconclusive

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


class BaseEstimator:
    pass


class TransformerMixin:
    def fit_transform(self, X, y=None, **kw):
        if y is not None:
            raise Inconclusive("fit_transform with y")
        return self.fit(X, **kw).transform(X)


class NotFittedError(ValueError, AttributeError):
    pass


class Kernel:
    pass


class RBF(Kernel):
    def __init__(self, length_scale=1.0):
        self.l = length_scale

    def __call__(self, x, y=None):
        import numpy as np

        y = x if y is None else y
        d = ((x[:, None, :] - y[None, :, :]) ** 2).sum(-1)
        return np.exp(-0.5 * d / self.l ** 2)


def kernel(length):
    sklearn()
    return RBF(length)


def pandas():
    if "pandas" not in sys.modules:
        import minipandas

        sys.modules["pandas"] = minipandas
    return sys.modules["pandas"]


def sklearn():
    if "sklearn" not in sys.modules:
        module("sklearn", __path__=[])
        module("sklearn.base", BaseEstimator=BaseEstimator, TransformerMixin=TransformerMixin)
        module("sklearn.exceptions", NotFittedError=NotFittedError)
        module("sklearn.gaussian_process", __path__=[])
        module("sklearn.gaussian_process.kernels", RBF=RBF, Kernel=Kernel)


def _same_length(a, b):
    import numpy as np

    a, b = np.ravel(np.asarray(a)), np.ravel(np.asarray(b))
    if len(a) != len(b):
        raise ValueError("Found input variables with inconsistent numbers of samples")
    return a.tolist(), b.tolist()


def roc_curve(y_true, y_score, **kw):
    """All thresholds (scikit-learn leaves out points on straight lines)."""
    import numpy as np

    if kw:
        raise Inconclusive("roc_curve(%s)" % sorted(kw))
    t, s = _same_length(y_true, y_score)
    cuts = sorted(set(s), reverse=True)
    pos, neg = sum(t), len(t) - sum(t)
    fpr = [0.0] + [sum(1 for a, b in zip(t, s) if b >= c and not a) / neg for c in cuts]
    tpr = [0.0] + [sum(1 for a, b in zip(t, s) if b >= c and a) / pos for c in cuts]
    return np.array(fpr), np.array(tpr), np.array([float("inf")] + cuts)


def auc(x, y):
    return sum((x[i + 1] - x[i]) * (y[i + 1] + y[i]) / 2 for i in range(len(x) - 1))


def classification_report(y_true, y_pred, labels=None, target_names=None, output_dict=False, **kw):
    if kw or labels is None or not output_dict:
        raise Inconclusive("classification_report")
    t, p = _same_length(y_true, y_pred)
    names = [str(x) for x in labels] if target_names is None else list(target_names)
    if len(names) != len(labels):
        raise ValueError("Number of classes does not match size of target_names")
    out = {}
    for x, n in zip(labels, names):
        tp, pp, sup = sum(a == b == x for a, b in zip(t, p)), sum(b == x for b in p), sum(a == x for a in t)
        pr, rc = tp / pp if pp else 0.0, tp / sup if sup else 0.0
        out[n] = {"precision": pr, "recall": rc, "f1-score": 2 * pr * rc / (pr + rc) if pr + rc else 0.0, "support": sup}
    tot = sum(r["support"] for r in out.values())
    rows = list(out.values())
    out["accuracy"] = sum(a == b for a, b in zip(t, p)) / len(t)
    out["macro avg"] = dict({k: sum(r[k] for r in rows) / len(rows) for k in ("precision", "recall", "f1-score")}, support=tot)
    out["weighted avg"] = dict({k: sum(r[k] * r["support"] for r in rows) / tot for k in ("precision", "recall", "f1-score")}, support=tot)
    return out


def metrics():
    sklearn()
    if "sklearn.metrics" not in sys.modules:
        sys.modules["sklearn"].metrics = module("sklearn.metrics", roc_curve=roc_curve, auc=auc, classification_report=classification_report)


def structure():
    """The package causalnex.structure without its __init__, which needs torch."""
    if "causalnex.structure" not in sys.modules:
        pk = module("causalnex.structure", __path__=[os.path.join(REPO, "causalnex", "structure")])
        sm = importlib.import_module("causalnex.structure.structuremodel")
        pk.StructureModel = sm.StructureModel
    return importlib.import_module("causalnex.structure.structuremodel")


def torch():
    """The modules on torch: causalnex.structure.pytorch."""
    if "torch" not in sys.modules:
        import minisklearn
        import minitorch
        import plot_drivers

        sklearn()
        minisklearn.install(module, sys.modules["sklearn"])
        minitorch.install(module)
        plot_drivers.install()


def load(name):
    """A module of causalnex that can do with the stand-ins."""
    pandas()
    sklearn()
    structure()
    if name.startswith("causalnex.structure.pytorch"):
        torch()
    if name.startswith("causalnex.network") or name.startswith("causalnex.inference"):
        pgmpy()
    if name.startswith("causalnex.evaluation"):
        pgmpy()
        metrics()
    return importlib.import_module(name)


def pgmpy():
    if "pgmpy" in sys.modules:
        return
    import minipgmpy

    module("pgmpy", __path__=[])
    module("pgmpy.models", BayesianModel=minipgmpy.BayesianModel)
    module("pgmpy.estimators", BayesianEstimator=minipgmpy.BayesianEstimator, MaximumLikelihoodEstimator=minipgmpy.MaximumLikelihoodEstimator)
