"""A very small stand-in for pandas (which is not installed): just what causalnex asks for.

Anything it does not offer raises Inconclusive, so that the case is set aside
instead of being counted for or against the code."""
import numpy as np
from worker import Inconclusive


def _missing(self, name):
    if name.startswith("__") or name in ("adj", "is_strict", "format", "todense"):  # the last ones: networkx looks what it has got
        raise AttributeError(name)
    raise Inconclusive("pandas stand-in: %s.%s" % (type(self).__name__, name))


def _arr(xs):
    xs = list(xs)
    if any(isinstance(x, (tuple, list, str)) or x is None for x in xs) or len({isinstance(x, bool) for x in xs}) > 1:
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return a
    return np.array(xs)


class Index:
    def __init__(self, data, name=None, names=None):
        self._d = data if isinstance(data, np.ndarray) and data.ndim == 1 else _arr(data)
        self.name = name
        self.names = list(names) if names is not None else [name]

    __getattr__ = _missing
    values = property(lambda s: s._d)
    dtype = property(lambda s: s._d.dtype)
    empty = property(lambda s: len(s._d) == 0)
    size = property(lambda s: len(s._d))
    shape = property(lambda s: (len(s._d),))

    def __array__(self, dtype=None, copy=None):
        return np.array(self._d, dtype=dtype)

    def __iter__(self):
        return iter(self._d.tolist())

    def __len__(self):
        return len(self._d)

    def __getitem__(self, i):
        return self._d[i] if isinstance(i, (int, np.integer)) else Index(self._d[i], self.name)

    def __contains__(self, x):
        return any(type(x) == type(y) and x == y or x == y for y in self)

    def __eq__(self, other):
        o = list(other) if isinstance(other, (Index, list, np.ndarray, tuple)) else None
        if o is None:
            return np.array([x == other for x in self], dtype=bool)
        if len(o) != len(self):
            raise ValueError("Lengths must match to compare")
        return np.array([x == y for x, y in zip(self, o)], dtype=bool)

    def __ne__(self, other):
        return ~(self == other)

    __hash__ = None

    def sort_values(self):
        return Index(np.sort(self._d, kind="stable"), self.name)

    def tolist(self):
        return self._d.tolist()

    to_list = tolist

    def to_numpy(self):
        return self._d

    def get_loc(self, k):
        at = [i for i, x in enumerate(self) if _same(x, k)]
        if not at:
            raise KeyError(k)
        if len(at) > 1:
            raise Inconclusive("get_loc of a repeated name")
        return at[0]

    def unique(self):
        out = []
        for x in self:
            if x not in out:
                out.append(x)
        return Index(out)

    def equals(self, other):
        return len(self) == len(other) and bool(np.all(self == other))

    @property
    def is_monotonic_increasing(self):
        return bool(np.all(self._d[1:] >= self._d[:-1]))

    @property
    def is_unique(self):
        return len(set(self)) == len(self)


class MultiIndex(Index):
    @classmethod
    def from_product(cls, iterables, names=None):
        import itertools

        return cls(_arr(list(itertools.product(*iterables))), names=list(names) if names is not None else [None] * len(iterables))

    @classmethod
    def from_frame(cls, df):
        return cls(_arr(list(zip(*[df[c].values for c in df.columns]))), names=list(df.columns))


class _Loc:
    def __init__(self, obj, kind):
        self.o, self.kind = obj, kind

    def __getitem__(self, k):
        o = self.o
        if self.kind == "iloc":
            if isinstance(o, Series):
                if isinstance(k, slice):
                    return Series(o._d[k], index=Index(o.index._d[k]))
                return o._d[k]
            rows, cols = k if isinstance(k, tuple) else (k, slice(None))
            if not isinstance(rows, slice):
                raise Inconclusive("iloc %r" % (k,))
            names = list(o.columns)[cols] if isinstance(cols, slice) else None
            if isinstance(cols, (list, np.ndarray)):
                names = [list(o.columns)[i] for i in cols]
            if names is None:
                raise Inconclusive("iloc %r" % (k,))
            return DataFrame({c: o._c[c][rows] for c in names}, index=o.index._d[rows], columns=names)
        if self.kind == "at":
            r, c = k
            return o._c[c][_pos(o.index, r)]
        if isinstance(o, Series):
            return o._d[_pos(o.index, k)]
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and isinstance(o, DataFrame):
            at = [_pos(o.index, x) if x is not None else None for x in (k[0].start, k[0].stop)]
            if k[0].step is not None or len(set(o.index)) != len(o.index):
                raise Inconclusive("loc %r" % (k,))
            rows = slice(at[0], None if at[1] is None else at[1] + 1)
            part = o if isinstance(k[1], slice) and k[1] == slice(None) else o[list(k[1])] if isinstance(k[1], (list, Index)) else None
            if part is None:
                raise Inconclusive("loc %r" % (k,))
            return DataFrame({c: part._c[c][rows] for c in part._names}, index=o.index._d[rows], columns=list(part._names))
        if isinstance(k, (slice, list, np.ndarray)):
            raise Inconclusive("loc %r" % (k,))
        if isinstance(k, tuple) and len(k) == 2 and not any(_same(k, i) for i in o.index):
            return o._c[_col(o, k[1])][_pos(o.index, k[0])]
        return Series(_arr([o._c[c][_pos(o.index, k)] for c in o._names]), index=o.columns)


    def __setitem__(self, k, v):
        o = self.o
        if self.kind == "iloc" and isinstance(o, DataFrame) and isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], list):
            v = v.values if isinstance(v, (DataFrame, Series)) else np.asarray(v)
            if v.shape != (len(o), len(k[1])):
                raise ValueError("Must have equal len keys and value when setting with an ndarray")
            for i, c in enumerate(k[1]):  # whole columns take over the type of the values if theirs cannot hold them
                n = o._names[c]
                fits = o._c[n].dtype == v.dtype or o._c[n].dtype.kind == "f" and v.dtype.kind in "iuf"
                if fits and o._c[n].flags.writeable:
                    o._c[n][:] = v[:, i]
                else:
                    o._c[n] = v[:, i].astype(o._c[n].dtype if fits else v.dtype)
            return
        if self.kind != "loc" or not isinstance(o, DataFrame) or not isinstance(k, tuple) or len(k) != 2 or k[1] != slice(None) or isinstance(v, (list, np.ndarray, Series)):
            raise Inconclusive("setting %s %r" % (self.kind, k))
        if any(_same(x, k[0]) for x in o.index):
            i = _pos(o.index, k[0])
            for c in o._names:
                o._c[c] = o._c[c].copy()
                o._c[c][i] = v
        else:
            for c in o._names:
                o._c[c] = np.append(o._c[c], v)
            o._index = Index(_arr(list(o._index) + [k[0]]))


def _same(a, b):
    return a == b if not isinstance(a, np.ndarray) else False


def _pos(index, k):
    for i, x in enumerate(index):
        if _same(x, k):
            return i
    raise KeyError(k)


def _col(o, c):
    if c in o._c:
        return c
    raise KeyError(c)


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, Series):
            index, name, data = data.index if index is None else index, data.name if name is None else name, data._d
        if data is None:
            if index is None:
                raise Inconclusive("Series()")
            data = np.full(len(list(index)), np.nan)
        if isinstance(data, dict):
            raise Inconclusive("Series(dict)")
        self._d = data if isinstance(data, np.ndarray) else _arr(data)
        if self._d.ndim != 1:
            raise ValueError("Data must be 1-dimensional")
        if self._d.dtype.kind in "US":
            self._d = self._d.astype(object)
        if dtype is not None:
            self._d = self._d.astype(dtype)
        self.index = index if isinstance(index, Index) else Index(np.arange(len(self._d)) if index is None else index)
        self.name = name

    __getattr__ = _missing
    values = property(lambda s: s._d)
    dtype = property(lambda s: s._d.dtype)
    shape = property(lambda s: s._d.shape)
    loc = property(lambda s: _Loc(s, "loc"))
    iloc = property(lambda s: _Loc(s, "iloc"))

    def __array__(self, dtype=None, copy=None):
        return np.array(self._d, dtype=dtype)

    def __iter__(self):
        return iter(self._d.tolist())

    def __len__(self):
        return len(self._d)

    def __getitem__(self, k):
        if isinstance(k, (slice, list, np.ndarray, Series, Index)):
            raise Inconclusive("Series[%r]" % (k,))
        return self._d[_pos(self.index, k)]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if k != slice(None) or not isinstance(v, np.ndarray) or v.shape != self._d.shape:
                raise Inconclusive("setting Series[%r]" % (k,))
            # pandas 1: values that replace all values bring their type along
            if self._d.dtype == v.dtype:
                self._d[:] = v
            else:
                self._d = v.copy()
            return
        if isinstance(k, (list, np.ndarray, Series, Index)):
            raise Inconclusive("setting Series[%r]" % (k,))
        if any(_same(x, k) for x in self.index):
            at = _pos(self.index, k)
            if np.asarray(v).dtype.kind == "f" and self._d.dtype.kind in "iub":
                self._d = self._d.astype(float)
            self._d[at] = v
        else:
            self._d = np.append(self._d, v)
            self.index = Index(_arr(list(self.index) + [k]))

    def copy(self, deep=True):
        return Series(self._d.copy(), index=self.index, name=self.name)

    def __deepcopy__(self, memo):
        return self.copy()

    def fillna(self, v):
        return Series(np.array([v if x is None or x != x else x for x in self._d.tolist()], dtype=self._d.dtype), index=self.index, name=self.name)

    def astype(self, t):
        return Series(self._d.astype(t), index=self.index, name=self.name)

    def reindex(self, labels):
        labels = list(labels)
        if len(set(self.index)) != len(self.index):
            raise ValueError("cannot reindex from a duplicate axis")
        d = dict(zip(list(self.index), self._d.tolist()))
        return Series(_arr([d.get(x, float("nan")) for x in labels]), index=labels, name=self.name)

    def reset_index(self, drop=False):
        if not drop:
            raise Inconclusive("reset_index")
        return Series(self._d.copy(), name=self.name)

    def to_numpy(self):
        return self._d

    def __eq__(self, other):
        return np.array([x == y for x, y in zip(self, other)], dtype=bool) if isinstance(other, (Series, list)) else np.array([x == other for x in self])

    __hash__ = None

    def map(self, m):
        f = m if callable(m) else lambda x: m[x] if x in m else float("nan")
        return Series(_arr([f(x) for x in self]), index=self.index, name=self.name)

    apply = map

    def unique(self):
        out = []
        for x in self._d.tolist():
            if not any(x is y or x == y for y in out):
                out.append(x)
        return _arr(out)

    def idxmax(self):
        return self.index._d[int(np.argmax(self._d.astype(float)))]

    def idxmin(self):
        return self.index._d[int(np.argmin(self._d.astype(float)))]

    def argmax(self):
        return int(np.argmax(self._d.astype(float)))

    def tolist(self):
        return self._d.tolist()

    to_list = tolist

    def to_dict(self):
        return dict(zip(self.index, self))

    def _there(self):
        return [x for x in self._d.tolist() if x is not None and x == x]

    def max(self):
        return max(self._there()) if self._there() else float("nan")

    def min(self):
        return min(self._there()) if self._there() else float("nan")

    def sum(self):
        return sum(self._there())

    def mean(self):
        return sum(self._there()) / len(self._there()) if self._there() else float("nan")

    def nunique(self):
        return len([x for x in self.unique().tolist() if x is not None and x == x])

    def isnull(self):
        return Series(np.array([x is None or x != x for x in self._d.tolist()], dtype=bool), index=self.index, name=self.name)

    isna = isnull

    def notnull(self):
        return Series(~self.isnull()._d, index=self.index, name=self.name)

    notna = notnull

    def dropna(self):
        at = np.flatnonzero(self.notnull()._d)
        return Series(self._d[at], index=self.index._d[at], name=self.name)

    def isin(self, values):
        return Series(np.array([x in values for x in self._d.tolist()], dtype=bool), index=self.index, name=self.name)

    def abs(self):
        return Series(np.abs(self._d), index=self.index, name=self.name)

    def all(self, axis=None):
        return all(self)

    def keys(self):
        return self.index

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __contains__(self, k):
        return any(_same(x, k) for x in self.index)

    size = property(lambda s: len(s._d))
    ndim = 1

    def _with(self, op, other):
        if isinstance(other, Series):
            if len(other) != len(self) or not all(_same(x, y) for x, y in zip(self.index, other.index)):
                raise Inconclusive("arithmetic of Series with different index")
            other = other._d
        elif isinstance(other, (list, DataFrame)):
            raise Inconclusive("arithmetic of a Series and %s" % type(other).__name__)
        with np.errstate(divide="ignore", invalid="ignore"):
            return Series(op(self._d, other), index=self.index, name=self.name)

    def __add__(self, o):
        return self._with(lambda a, b: a + b, o)

    def __sub__(self, o):
        return self._with(lambda a, b: a - b, o)

    def __mul__(self, o):
        return self._with(lambda a, b: a * b, o)

    def __truediv__(self, o):
        return self._with(lambda a, b: a / b, o)

    def __radd__(self, o):
        return self._with(lambda a, b: b + a, o)

    def __rsub__(self, o):
        return self._with(lambda a, b: b - a, o)

    def __rmul__(self, o):
        return self._with(lambda a, b: b * a, o)

    def __lt__(self, o):
        return self._with(lambda a, b: a < b, o)

    def __le__(self, o):
        return self._with(lambda a, b: a <= b, o)

    def __gt__(self, o):
        return self._with(lambda a, b: a > b, o)

    def __ge__(self, o):
        return self._with(lambda a, b: a >= b, o)

    def items(self):
        return zip(self.index, self)

    def any(self, axis=None):
        return any(self)


class DataFrame:
    _slots = ("_names", "_c", "_index")

    def __init__(self, data=None, index=None, columns=None):
        names, share = None, isinstance(data, DataFrame)
        if isinstance(data, DataFrame):
            if columns is not None:
                raise Inconclusive("DataFrame(DataFrame, columns)")
            index = data._index if index is None else index
            data = {c: data._c[c] for c in data._names}
        if isinstance(data, list) and data and isinstance(data[0], (list, tuple)):
            data = np.array(data)
        if isinstance(columns, MultiIndex):
            self._multi = columns.names
        if columns is not None:
            names = list(columns)
        if isinstance(data, np.ndarray):
            names = names if names is not None else list(range(data.shape[1]))
            if len(names) != data.shape[1]:
                raise ValueError("Shape of passed values is %s, indices imply %s" % (data.shape, len(names)))
            # as in pandas, the frame shows the array itself
            self._c = {n: data[:, i] for i, n in enumerate(names)}
            n = data.shape[0]
            if len(self._c) != len(names):
                raise Inconclusive("repeated column names")
        elif isinstance(data, dict):
            names = names if names is not None else list(data)
            self._c = {}
            for c in names:
                v = data[c]
                v = v._d if isinstance(v, (Series, Index)) else v
                self._c[c] = v if share else v.copy() if isinstance(v, np.ndarray) else _arr(v)
            n = len(next(iter(self._c.values()))) if self._c else 0
        elif data is None:
            names = names or []
            self._c = {c: _arr([]) for c in names}
            n = 0
        else:
            raise Inconclusive("DataFrame(%s)" % type(data).__name__)
        self._names = names
        if isinstance(index, Index):
            self._index = index
        else:
            self._index = Index(np.arange(n) if index is None else index)

    __getattr__ = _missing
    index = property(lambda s: s._index)
    loc = property(lambda s: _Loc(s, "loc"))
    iloc = property(lambda s: _Loc(s, "iloc"))
    at = property(lambda s: _Loc(s, "at"))
    empty = property(lambda s: len(s) == 0 or not s._names)

    @index.setter
    def index(self, v):
        self._index = v if isinstance(v, Index) else Index(v)

    @property
    def shape(self):
        return (len(self), len(self._names))

    @property
    def size(self):
        return len(self) * len(self._names)

    @property
    def columns(self):
        m = self.__dict__.get("_multi")
        if self.__dict__.get("_twins"):
            return Index(_arr([n for n, _ in self._twins]))
        if m is not None:
            return MultiIndex(_arr(self._names), names=m)
        return Index(_arr(self._names))

    @columns.setter
    def columns(self, cols):
        new = list(cols)
        if len(new) != len(self._names):
            raise ValueError("Length mismatch")
        self._multi = cols.names if isinstance(cols, MultiIndex) else None
        self._c = dict(zip(new, [self._c[c] for c in self._names]))
        self._names = new

    @property
    def values(self):
        if not self._names:
            return np.empty((len(self), 0))
        ts = {a.dtype for a in self._c.values()}
        if any(t == object or t.kind in "US" for t in ts):
            out = np.empty(self.shape, dtype=object)
        else:
            out = np.empty(self.shape, dtype=np.result_type(*ts))
        for i, c in enumerate(self._names):
            out[:, i] = self._c[c]
        return out

    def to_numpy(self):
        return self.values

    def __array__(self, dtype=None, copy=None):
        return np.array(self.values, dtype=dtype)

    @property
    def dtypes(self):
        return Series(_arr([self._c[c].dtype for c in self._names]), index=self.columns)

    def __len__(self):
        return len(self._index)

    def __iter__(self):
        return iter(self._names)

    def __contains__(self, c):
        return c in self._c

    def __getitem__(self, k):
        if self.__dict__.get("_twins"):
            if not isinstance(k, list):
                raise Inconclusive("repeated column names")
            arrays = [x for c in k for n, x in self._twins if n == c]
            return DataFrame({("twin", i): x for i, x in enumerate(arrays)}, index=self._index)
        if isinstance(k, (list, Index, np.ndarray)):
            ks = list(k)
            if ks and all(isinstance(x, (bool, np.bool_)) for x in ks):
                if len(ks) != len(self):
                    raise ValueError("Item wrong length %d instead of %d." % (len(ks), len(self)))
                at = [i for i, x in enumerate(ks) if x]
                return DataFrame({c: self._c[c][at] for c in self._names}, index=self._index._d[at], columns=list(self._names))
            for c in ks:
                if c not in self._c:
                    raise KeyError("%r not in index" % (c,))
            return DataFrame({c: self._c[c] for c in ks}, index=self._index, columns=ks)
        if isinstance(k, slice):
            raise Inconclusive("slice of rows")
        if k not in self._c:
            raise KeyError(k)
        return Series(self._c[k], index=self._index, name=k)

    def __setitem__(self, k, v):
        if not isinstance(k, (str, int, tuple, float, np.generic)):
            raise Inconclusive("setting %r" % (k,))
        if isinstance(v, (Series, Index)):
            v = v._d
        elif not isinstance(v, (list, np.ndarray)):
            v = [v] * len(self)
        if k not in self._c:
            self._names.append(k)
        self._c[k] = v.copy() if isinstance(v, np.ndarray) else _arr(v)

    def copy(self, deep=True):
        d = DataFrame({c: self._c[c] for c in self._names}, index=Index(self._index._d.copy(), self._index.name), columns=list(self._names))
        if self.__dict__.get("_multi") is not None:
            d._multi = self._multi
        return d

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = copy

    def select_dtypes(self, include=None, exclude=None):
        if (include, exclude) not in (("number", None), (None, "number"), (np.number, None), (None, np.number), (["number"], None), (None, ["number"])):
            raise Inconclusive("select_dtypes(%r, %r)" % (include, exclude))
        num = [c for c in self._names if self._c[c].dtype.kind in "iufc"]
        keep = num if include is not None else [c for c in self._names if c not in num]
        return self[keep]

    def drop(self, columns=None, errors="raise"):
        columns = [columns] if isinstance(columns, str) else list(columns)
        for c in columns:
            if c not in self._c and errors == "raise":
                raise KeyError(c)
        return self[[c for c in self._names if c not in columns]]

    def rename(self, columns=None, inplace=False):
        """Repeated names are allowed afterwards; they can be selected, each then gives all of its columns."""
        new = [columns(c) if callable(columns) else columns.get(c, c) for c in self._names]
        d = self if inplace else self.copy()
        if len(set(new)) < len(new):
            d._twins = [(n, d._c[c]) for n, c in zip(new, d._names)]
            d._names = [("twin", i) for i in range(len(new))]
            d._c = {n: x for n, (_, x) in zip(d._names, d._twins)}
        else:
            d.columns = new
        return None if inplace else d

    def set_index(self, keys, inplace=False):
        d = self if inplace else self.copy()
        (k,) = keys if isinstance(keys, list) else [keys]
        d._index = Index(d._c.pop(k), k)
        d._names = [c for c in d._names if c != k]
        return None if inplace else d

    def apply(self, fn, axis=0):
        if axis != 1:
            raise Inconclusive("apply(axis=%r)" % (axis,))
        rows = []
        for i in range(len(self)):
            r = _arr([self._c[c][i] for c in self._names]) if self._names else _arr([])
            rows.append(fn(Series(_objects([self._c[c][i] for c in self._names]), index=self.columns)))
        return Series(_arr(rows), index=self._index)

    def reset_index(self, drop=False):
        if not drop:
            raise Inconclusive("reset_index")
        return DataFrame({c: self._c[c] for c in self._names}, index=None, columns=list(self._names))

    def abs(self):
        return DataFrame({c: np.abs(self._c[c]) for c in self._names}, index=self._index, columns=list(self._names))

    def max(self):
        return Series(_arr([self._c[c].max() for c in self._names]), index=self.columns)

    def min(self):
        return Series(_arr([self._c[c].min() for c in self._names]), index=self.columns)

    def any(self, axis=0):
        if axis is not None:
            return Series(_arr([bool(self._c[c].any()) for c in self._names]), index=self.columns)
        return any(bool(self._c[c].any()) for c in self._names)

    def isna(self):
        return self.isnull()

    def isnull(self):
        return DataFrame({c: _arr([bool(x != x or x is None) for x in self._c[c].tolist()]) for c in self._names}, index=self._index, columns=self._names)


def _objects(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x.item() if isinstance(x, np.generic) else x
    return a


def concat(objs, axis=0, ignore_index=False):
    if axis != 1 or ignore_index:
        raise Inconclusive("concat(axis=%r)" % (axis,))
    objs = list(objs)
    same = all(len(o.index) == len(objs[0].index) and bool(np.all(o.index == objs[0].index)) for o in objs)
    labels = list(objs[0].index)
    if not same:
        for o in objs:
            if len(set(o.index)) != len(o.index):
                raise ValueError("cannot reindex from a duplicate axis")
            labels += [x for x in o.index if x not in labels]
    d = {}
    names = []
    for o in objs:
        cols = [(o.name, o._d)] if isinstance(o, Series) else [(c, o._c[c]) for c in o._names]
        for c, v in cols:
            if c is None:
                raise Inconclusive("concat of a Series without a name")
            if c in d:
                raise Inconclusive("concat with repeated names")
            if not same:
                m = dict(zip(list(o.index), v.tolist()))
                v = _arr([m.get(x, float("nan")) for x in labels])
            d[c] = v
            names.append(c)
    return DataFrame(d, index=objs[0].index if same else labels, columns=names)


def get_dummies(data):
    """One column of 0 and 1 per value, the columns in order."""
    if not isinstance(data, Series):
        raise Inconclusive("get_dummies(%s)" % type(data).__name__)
    xs = data.tolist()
    names = []
    for x in sorted(xs):
        if x not in names:
            names.append(x)
    return DataFrame({n: np.array([int(x == n) for x in xs], dtype=np.uint8) for n in names}, index=data.index, columns=names)


def isnull(x):
    if isinstance(x, (list, set, tuple, np.ndarray)):
        return np.array([v is None or v != v for v in x], dtype=bool)
    return x is None or x != x


isna = isnull


def __getattr__(name):  # noqa: N807
    if name.startswith("__"):
        raise AttributeError(name)
    raise Inconclusive("pandas stand-in: %s" % name)
