"""Stand-ins for the parts of scikit-learn that the torch based learners use (see stubs.py for the others)."""
import numpy as np
from worker import Inconclusive


class ClassifierMixin:
    _estimator_type = "classifier"


class RegressorMixin:
    _estimator_type = "regressor"


def _numeric(X):
    a = np.asarray(X)
    if a.dtype == object:
        a = a.astype(np.float64)
    return a


def check_array(X, **kw):
    if kw:
        raise Inconclusive("check_array(%s)" % sorted(kw))
    a = _numeric(X)
    if a.ndim != 2:
        raise ValueError("Expected 2D array")
    if a.dtype.kind == "f" and not np.isfinite(a).all():
        raise ValueError("Input contains NaN, infinity or a value too large for %r." % a.dtype)
    if 0 in a.shape:
        raise ValueError("Found array with 0 sample(s)")
    return a


def check_X_y(X, y, y_numeric=False, **kw):
    if kw:
        raise Inconclusive("check_X_y(%s)" % sorted(kw))
    X = check_array(X)
    y = np.asarray(y)
    if y.ndim != 1:
        raise ValueError("bad input shape")
    if y_numeric and y.dtype == object:
        y = y.astype(np.float64)
    if y.dtype.kind == "f" and not np.isfinite(y).all():
        raise ValueError("Input contains NaN")
    if len(X) != len(y):
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(X), len(y)])
    return X, y


def check_is_fitted(est, *a, **kw):
    import sys

    if a or kw:
        raise Inconclusive("check_is_fitted")
    if not [v for v in vars(est) if v.endswith("_") and not v.startswith("__")]:
        raise sys.modules["sklearn.exceptions"].NotFittedError("This %s instance is not fitted yet." % type(est).__name__)


def check_classification_targets(y):
    a = np.asarray(y)
    if a.dtype.kind == "f" and (a != a.astype(np.int64)).any():
        raise ValueError("Unknown label type: 'continuous'")


def _column(y):
    a = np.asarray(y)
    if a.ndim != 1:
        raise ValueError("bad input shape")
    return a


def _uniques(a):
    if a.dtype == object:
        return np.array(sorted(set(a.tolist())), dtype=object)
    return np.unique(a)


class LabelEncoder:
    def fit(self, y):
        self.classes_ = _uniques(_column(y))
        return self

    def transform(self, y):
        at = {c: i for i, c in enumerate(self.classes_.tolist())}
        y = _column(y).tolist()
        if any(v not in at for v in y):
            raise ValueError("y contains previously unseen labels")
        return np.array([at[v] for v in y], dtype=np.int64)

    def fit_transform(self, y):
        return self.fit(y).transform(y)

    def inverse_transform(self, y):
        return self.classes_[np.asarray(y)]


class _Encoder:
    def fit(self, X, y=None):
        a = np.asarray(X)
        if a.ndim != 2:
            raise ValueError("Expected 2D array")
        self.categories_ = [_uniques(a[:, j]) for j in range(a.shape[1])]
        return self

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)

    def _codes(self, X):
        if not hasattr(self, "categories_"):
            import sys

            raise sys.modules["sklearn.exceptions"].NotFittedError("not fitted")
        a = np.asarray(X)
        out = np.empty(a.shape, dtype=np.int64)
        for j, cs in enumerate(self.categories_):
            at = {c: i for i, c in enumerate(cs.tolist())}
            for r, v in enumerate(a[:, j].tolist()):
                if v not in at:
                    raise ValueError("Found unknown categories [%r] in column %d during transform" % (v, j))
                out[r, j] = at[v]
        return out


class OneHotEncoder(_Encoder):
    def __init__(self, categories="auto", drop=None, sparse=True, handle_unknown="error", dtype=np.float64):
        if categories != "auto" or drop is not None or sparse or handle_unknown != "error":
            raise Inconclusive("OneHotEncoder")

    def transform(self, X):
        k = self._codes(X)
        return np.hstack([np.eye(len(cs))[k[:, j]] for j, cs in enumerate(self.categories_)])


class OrdinalEncoder(_Encoder):
    def __init__(self, categories="auto", dtype=np.float64):
        if categories != "auto":
            raise Inconclusive("OrdinalEncoder")

    def transform(self, X):
        return self._codes(X).astype(np.float64)


class StandardScaler:
    def fit(self, X, y=None):
        a = check_array(X).astype(np.float64)
        self.mean_ = a.mean(axis=0)
        s = a.std(axis=0)
        self.scale_ = np.where(s == 0, 1.0, s)
        return self

    def transform(self, X):
        a = check_array(X)
        if a.shape[1] != len(self.mean_):
            raise ValueError("X has the wrong number of features")
        return (a.astype(np.float64) - self.mean_) / self.scale_

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)

    def inverse_transform(self, X):
        return np.asarray(X, dtype=np.float64) * self.scale_ + self.mean_


def install(module, root):
    def strict(m):
        name = m.__name__

        def ga(k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Inconclusive("%s stand-in: %s" % (name, k))

        m.__getattr__ = ga
        return m

    root.base = __import__("sys").modules["sklearn.base"]
    root.base.ClassifierMixin, root.base.RegressorMixin = ClassifierMixin, RegressorMixin
    root.preprocessing = strict(module("sklearn.preprocessing", OneHotEncoder=OneHotEncoder, OrdinalEncoder=OrdinalEncoder, StandardScaler=StandardScaler, LabelEncoder=LabelEncoder))
    root.utils = strict(module("sklearn.utils", __path__=[], check_array=check_array, check_X_y=check_X_y))
    root.utils.validation = strict(module("sklearn.utils.validation", check_is_fitted=check_is_fitted, check_X_y=check_X_y, check_array=check_array))
    root.utils.multiclass = strict(module("sklearn.utils.multiclass", check_classification_targets=check_classification_targets))
