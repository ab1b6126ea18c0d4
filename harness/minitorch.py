"""A small stand-in for torch (which is not installed): tensors over numpy with reverse-mode differentiation, and just
the modules and functions that causalnex asks for.  Numbers are 64-bit floats where torch would use 32 bits.
Anything it does not offer raises Inconclusive."""
import numbers
import functools

import numpy as np
from worker import Inconclusive

_GRAD = [True]
_RNG = [np.random.RandomState(0)]


REAL = set("""absolute acos add add_ addcmul addmm all allclose amax amin angle any apply_ arange argmin argsort as_strided asin atan
backward_ bernoulli bincount bmm bool broadcast_to byte ceil char chunk clamp_ clip copy_ cos cosh count_nonzero cross cuda cumprod cumsum
det detach_ diag diag_embed diagonal diff digamma dist div div_ dot eig eq eq_ equal erf erfc exp_ expand expand_as expm1 fill_
fill_diagonal_ flip floor fmod ge grad_fn gt half hardshrink index_add index_add_ index_copy index_fill index_put index_put_ index_select
int inverse is_contiguous is_cuda is_floating_point is_leaf isfinite isinf isnan kthvalue le lerp lgamma log10 log1p log2 log_ log_softmax
logaddexp logical_and logical_not logical_or logsumexp lt masked_fill masked_fill_ masked_scatter masked_select matrix_exp matrix_power
maximum median min minimum mode movedim mul mul_ multinomial mv name names nansum narrow ndimension ne neg neg_ new_empty new_full new_ones
new_tensor new_zeros nonzero norm numel_ ones_like outer permute prod put_ qr random_ reciprocal register_hook relu remainder renorm repeat
repeat_interleave requires_grad resize_ resize_as_ retain_grad roll round rsqrt scatter scatter_ scatter_add scatter_add_ select set_ short
sign sin sinh slice softmax solve sort split sqrt_ square_ squeeze_ std storage stride sub sub_ subtract sum_to_size svd t_ take tan tanh
tensor_split tile topk transpose_ tril triu true_divide trunc type type_as unbind unfold uniform_ unique unsqueeze_ values var vdot where
xlogy zero""".split())


def _missing(self, name):
    if name.startswith("_") or isinstance(self, Tensor) and name not in REAL or isinstance(self, Module):
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, name))
    raise Inconclusive("torch stand-in: %s.%s" % (type(self).__name__, name))


class Node:
    """One operation: parents are nodes, back gives their gradients."""

    def __init__(self, parents, back, leaf=None):
        self.parents, self.back, self.leaf = parents, back, leaf


def _unbroadcast(g, shape):
    while g.ndim > len(shape):
        g = g.sum(axis=0)
    for i, n in enumerate(shape):
        if n == 1 and g.shape[i] != 1:
            g = g.sum(axis=i, keepdims=True)
    return g.reshape(shape)


def _a(x):
    return x._a if isinstance(x, Tensor) else np.asarray(x)


def _op(out, parents, back):
    """parents: tensors; back(g) gives one gradient per parent."""
    t = Tensor._wrap(out)
    if _GRAD[0]:
        ns = [p._node if isinstance(p, Tensor) else None for p in parents]
        if any(n is not None for n in ns):
            t._node = Node(ns, back)
    return t


def _index(k):
    if isinstance(k, Tensor):
        return k._a
    if isinstance(k, tuple):
        return tuple(_index(x) for x in k)
    return k


class Tensor:
    def __init__(self, *shape):
        self._a = np.zeros(shape)
        self._node = None
        self.grad = None

    @staticmethod
    def _wrap(a):
        t = Tensor.__new__(Tensor)
        t._a = np.asarray(a)
        t._node = None
        t.grad = None
        return t

    __getattr__ = _missing
    shape = property(lambda s: s._a.shape)
    device = property(lambda s: _Device("cpu"))
    dtype = property(lambda s: s._a.dtype)
    is_sparse = False
    ndim = property(lambda s: s._a.ndim)
    requires_grad = property(lambda s: s._node is not None)

    @property
    def data(self):
        return Tensor._wrap(self._a)

    @data.setter
    def data(self, t):
        if t._a.shape != self._a.shape:
            raise RuntimeError("shape of data")
        self._a = t._a

    def requires_grad_(self, on=True):
        self._node = Node([], None, leaf=self) if on else None
        return self

    # --- without a gradient
    def size(self, dim=None):
        return self._a.shape if dim is None else self._a.shape[dim]

    def dim(self):
        return self._a.ndim

    def __len__(self):
        return len(self._a)

    def numel(self):
        return self._a.size

    def new(self, *shape):
        return Tensor._wrap(np.zeros(shape))

    def zero_(self):
        self._a[...] = 0
        return self

    def to_dense(self):
        return self

    def numpy(self):
        if self._node is not None:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad.")
        return self._a

    def __array__(self, dtype=None, copy=None):
        return np.array(self.numpy(), dtype=dtype)

    def detach(self):
        return Tensor._wrap(self._a)

    def item(self):
        return self._a.item()

    def tolist(self):
        return self._a.tolist()

    def long(self):
        return Tensor._wrap(self._a.astype(np.int64))

    def cpu(self):
        return self

    def to(self, *a, **kw):
        return self

    def contiguous(self):
        return self

    def float(self):
        return self if self._a.dtype == np.float64 else _op(self._a.astype(np.float64), [self], lambda g: [g])

    double = float

    def clone(self):
        return _op(self._a.copy(), [self], lambda g: [g])

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float_(self._a)

    def _cmp(self, o, f):
        return Tensor._wrap(f(self._a, _a(o)))

    def __gt__(self, o):
        return self._cmp(o, np.greater)

    def __ge__(self, o):
        return self._cmp(o, np.greater_equal)

    def __lt__(self, o):
        return self._cmp(o, np.less)

    def __le__(self, o):
        return self._cmp(o, np.less_equal)

    # --- arithmetic
    def __add__(self, o):
        return _bin(self, o, np.add, lambda a, b, g: (g, g))

    def __sub__(self, o):
        return _bin(self, o, np.subtract, lambda a, b, g: (g, -g))

    def __mul__(self, o):
        return _bin(self, o, np.multiply, lambda a, b, g: (g * b, g * a))

    def __truediv__(self, o):
        return _bin(self, o, np.true_divide, lambda a, b, g: (g / b, -g * a / (b * b)))

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return _bin(o, self, np.subtract, lambda a, b, g: (g, -g))

    def __rtruediv__(self, o):
        return _bin(o, self, np.true_divide, lambda a, b, g: (g / b, -g * a / (b * b)))

    def __pow__(self, k):
        if isinstance(k, Tensor):
            raise Inconclusive("tensor ** tensor")
        a = self._a
        return _op(a ** k, [self], lambda g: [g * k * a ** (k - 1)])

    def __neg__(self):
        return _op(-self._a, [self], lambda g: [-g])

    def __iadd__(self, o):
        return self._become(self + o)

    def __isub__(self, o):
        return self._become(self - o)

    def __imul__(self, o):
        return self._become(self * o)

    def __itruediv__(self, o):
        return self._become(self / o)

    def _become(self, t):
        if self._node is not None and self._node.leaf is not None and _GRAD[0]:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        self._a[...] = t._a
        if _GRAD[0]:
            self._node = t._node
        return self

    def __matmul__(self, o):
        return matmul(self, o)

    def __getitem__(self, k):
        k = _index(k)
        a = self._a

        def back(g):
            z = np.zeros(a.shape)
            np.add.at(z, k, g)
            return [z]

        return _op(np.array(a[k]), [self], back)

    def __setitem__(self, k, v):
        k = _index(k)
        va = _a(v)
        old = self._node
        if old is not None and old.leaf is not None and _GRAD[0]:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        vshape = va.shape
        new = self._a.copy()          # readers of the earlier value keep theirs
        new[k] = va
        shape = self._a[k].shape
        self._a = new

        def back(g):
            g0 = g.copy()
            g0[k] = 0
            return [g0, _unbroadcast(np.asarray(g[k]).reshape(shape), vshape)]

        vn = v._node if isinstance(v, Tensor) else None
        if _GRAD[0] and (old is not None or vn is not None):
            self._node = Node([old, vn], back)

    # --- shapes
    def view(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        old = self._a.shape
        return _op(self._a.reshape(shape), [self], lambda g: [g.reshape(old)])

    reshape = view

    def view_as(self, o):
        return self.view(*o.shape)

    def flatten(self):
        return self.view(-1)

    def t(self):
        if self._a.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions")
        return _op(self._a.T, [self], lambda g: [g.T])

    T = property(lambda s: s.t())

    def transpose(self, i, j):
        return _op(self._a.swapaxes(i, j), [self], lambda g: [g.swapaxes(i, j)])

    def unsqueeze(self, dim):
        old = self._a.shape
        return _op(np.expand_dims(self._a, dim), [self], lambda g: [g.reshape(old)])

    def squeeze(self, dim=None):
        old = self._a.shape
        out = self._a
        if dim is None:
            out = out.reshape([n for n in old if n != 1])
        elif old[dim] == 1:
            out = np.squeeze(out, axis=dim)
        return _op(out, [self], lambda g: [g.reshape(old)])

    # --- reductions and functions
    def sum(self, dim=None, axis=None, keepdim=False):
        return _reduce(self, dim if axis is None else axis, keepdim, 1)

    def mean(self, dim=None, axis=None, keepdim=False):
        d = dim if axis is None else axis
        n = self._a.size if d is None else int(np.prod([self._a.shape[i] for i in (d if isinstance(d, (tuple, list)) else [d])]))
        return _reduce(self, d, keepdim, n)

    def abs(self):
        a = self._a
        return _op(np.abs(a), [self], lambda g: [g * np.sign(a)])

    def exp(self):
        e = np.exp(self._a)
        return _op(e, [self], lambda g: [g * e])

    def log(self):
        a = self._a
        return _op(np.log(a), [self], lambda g: [g / a])

    def sqrt(self):
        r = np.sqrt(self._a)
        return _op(r, [self], lambda g: [g / (2 * r)])

    def pow(self, k):
        return self ** k

    def square(self):
        return self ** 2

    def trace(self):
        n = self._a.shape
        return _op(np.trace(self._a), [self], lambda g: [g * np.eye(*n)])

    def sigmoid(self):
        return sigmoid(self)

    def clamp(self, min=None, max=None):  # noqa: A002
        a = self._a
        out = np.clip(a, min, max)
        return _op(out, [self], lambda g: [g * (out == a)])

    def gather(self, dim, index):
        a, i = self._a, index._a

        def back(g):
            z = np.zeros(a.shape)
            ix = list(np.indices(i.shape))
            ix[dim] = i
            np.add.at(z, tuple(ix), g)
            return [z]

        return _op(np.take_along_axis(a, i, axis=dim), [self], back)

    def matmul(self, o):
        return matmul(self, o)

    mm = matmul

    def argmax(self, dim=None):
        return argmax(self, dim)

    def max(self, *a, **kw):
        if a or kw:
            raise Inconclusive("max")
        return Tensor._wrap(self._a.max())

    def backward(self):
        grads = _backward(self)
        for n, g in grads.items():
            if n.leaf is not None:
                old = n.leaf.grad
                n.leaf.grad = Tensor._wrap(g if old is None else old._a + g)

    def __repr__(self):
        return "tensor(%s)" % (self._a,)


float_ = __builtins__["float"] if isinstance(__builtins__, dict) else __builtins__.float


def _bin(x, y, f, back):
    a, b = _a(x), _a(y)
    sa, sb = a.shape, b.shape

    def bk(g):
        ga, gb = back(a, b, g)
        return [_unbroadcast(ga, sa), _unbroadcast(gb, sb)]

    return _op(f(a, b), [x, y], bk)


def _reduce(t, dim, keepdim, n):
    dim = tuple(dim) if isinstance(dim, list) else dim
    shape = t._a.shape
    out = t._a.sum(axis=dim, keepdims=keepdim) / n if n != 1 else t._a.sum(axis=dim, keepdims=keepdim)

    def back(g):
        g = np.asarray(g)
        if dim is not None and not keepdim:
            g = np.expand_dims(g, dim)
        return [np.broadcast_to(g, shape) / n]

    return _op(out, [t], back)


def _backward(out, seed=None):
    if out._node is None:
        raise RuntimeError("element 0 of tensors does not require grad")
    if out._a.size != 1:
        raise RuntimeError("grad can be implicitly created only for scalar outputs")
    order, seen, stack = [], set(), [(out._node, False)]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if id(n) in seen:
            continue
        seen.add(id(n))
        stack.append((n, True))
        for p in n.parents:
            if p is not None and id(p) not in seen:
                stack.append((p, False))
    grads = {out._node: np.ones(out._a.shape)}
    for n in reversed(order):
        if n.back is None or n not in grads:
            continue
        for p, g in zip(n.parents, n.back(grads[n])):
            if p is not None:
                grads[p] = grads[p] + g if p in grads else np.asarray(g, dtype=np.float64)
    return grads


class autograd:
    @staticmethod
    def grad(outputs, inputs, create_graph=False, retain_graph=None, **kw):
        if kw:
            raise Inconclusive("grad(%s)" % sorted(kw))
        grads = _backward(outputs)
        ins = inputs if isinstance(inputs, (tuple, list)) else [inputs]
        return tuple(Tensor._wrap(grads.get(i._node, np.zeros(i._a.shape))) for i in ins)


# ------------------------------------------------------------ functions
class _Device(str):
    type = property(lambda s: str(s))


device = _Device


def tensor(x, **kw):
    a = np.asarray(_a(x))
    return Tensor._wrap(a.copy())


def as_tensor(x, **kw):
    return x if isinstance(x, Tensor) else Tensor._wrap(np.asarray(x))


def from_numpy(x):
    if not isinstance(x, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(x).__name__)
    if x.dtype == object:
        raise TypeError("can't convert np.ndarray of type numpy.object_.")
    return Tensor._wrap(x.astype(np.float64) if x.dtype.kind == "f" else x.copy())


def get_default_dtype():
    return np.float64


def zeros(*shape, **kw):
    shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
    return Tensor._wrap(np.zeros(shape))


def ones(*shape, **kw):
    shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
    return Tensor._wrap(np.ones(shape))


def eye(n, **kw):
    return Tensor._wrap(np.eye(n))


def sigmoid(t):
    a = t._a
    e = np.exp(-np.abs(a))
    s = np.where(a >= 0, 1 / (1 + e), e / (1 + e))
    return _op(s, [t], lambda g: [g * s * (1 - s)])


def softmax(t, dim):
    e = np.exp(t._a - t._a.max(axis=dim, keepdims=True))
    s = e / e.sum(axis=dim, keepdims=True)
    return _op(s, [t], lambda g: [s * (g - (g * s).sum(axis=dim, keepdims=True))])


def matmul(x, y):
    a, b = _a(x), _a(y)
    if a.ndim < 2 or b.ndim < 2:
        raise Inconclusive("matmul of vectors")
    return _op(a @ b, [x, y], lambda g: [_unbroadcast(g @ b.swapaxes(-1, -2), a.shape), _unbroadcast(a.swapaxes(-1, -2) @ g, b.shape)])


mm = matmul


def matrix_power(t, n):
    out = None
    if n < 0:
        raise Inconclusive("matrix_power")
    if n == 0:
        return _op(np.eye(t._a.shape[0]), [t], lambda g: [np.zeros(t._a.shape)])
    for _ in range(n):
        out = t if out is None else matmul(out, t)
    return out


def cat(ts, dim=0):
    ts = list(ts)
    sizes = np.cumsum([t._a.shape[dim] for t in ts])[:-1]
    return _op(np.concatenate([t._a for t in ts], axis=dim), ts, lambda g: np.split(g, sizes, axis=dim))


def stack(ts, dim=0):
    return cat([t.unsqueeze(dim) for t in ts], dim)


def argmax(t, dim=None):
    return Tensor._wrap(np.argmax(t._a, axis=dim))


def numel(t):
    return t.numel()


def manual_seed(s):
    _RNG[0] = np.random.RandomState(s % 4294967296)


def _method(name):
    def f(t, *a, **kw):
        return getattr(t, name)(*a, **kw)

    return f


for _n in ("sum", "mean", "abs", "exp", "log", "sqrt", "pow", "square", "trace", "unsqueeze", "squeeze", "t", "transpose", "clamp", "gather", "reshape", "flatten"):
    globals()[_n] = _method(_n)


def mul(a, b):
    return a * b


def add(a, b):
    return a + b


class no_grad:
    def __enter__(self):
        self.old = _GRAD[0]
        _GRAD[0] = False

    def __exit__(self, *a):
        _GRAD[0] = self.old

    def __call__(self, fn):
        @functools.wraps(fn)
        def wrapped(*a, **kw):
            with no_grad():
                return fn(*a, **kw)

        return wrapped


# ------------------------------------------------------------ modules
class Parameter(Tensor):
    def __init__(self, t, requires_grad=True):
        self._a = np.array(t._a, dtype=np.float64)
        self.grad = None
        self._node = Node([], None, leaf=self)

    def __deepcopy__(self, memo):
        p = Parameter(self)
        for k, v in self.__dict__.items():
            if k not in ("_a", "grad", "_node"):
                p.__dict__[k] = v
        memo[id(self)] = p
        return p


class Module:
    def __init__(self):
        self.__dict__["_parameters"] = {}
        self.__dict__["_modules"] = {}
        self.training = True

    def __setattr__(self, k, v):
        if isinstance(v, Parameter):
            self._parameters[k] = v
        elif isinstance(v, Module):
            self._modules[k] = v
        object.__setattr__(self, k, v)

    def register_parameter(self, k, v):
        self._parameters[k] = v
        object.__setattr__(self, k, v)

    def parameters(self):
        for p in self._parameters.values():
            if p is not None:
                yield p
        for m in self._modules.values():
            yield from m.parameters()

    def __call__(self, *a, **kw):
        return self.forward(*a, **kw)

    def float(self):
        return self

    def to(self, *a, **kw):
        return self

    def eval(self):
        self.training = False
        return self

    def train(self, on=True):
        self.training = on
        return self

    def zero_grad(self):
        for p in self.parameters():
            p.grad = None


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        self._list = list(ms)
        for i, m in enumerate(self._list):
            self._modules[str(i)] = m

    def __iter__(self):
        return iter(self._list)

    def __len__(self):
        return len(self._list)

    def __getitem__(self, i):
        return self._list[i]


class Linear(Module):
    def __init__(self, i, o, bias=True):
        super().__init__()
        r = 1 / np.sqrt(i)
        self.weight = Parameter(Tensor._wrap(_RNG[0].uniform(-r, r, (o, i))))
        if bias:
            self.bias = Parameter(Tensor._wrap(_RNG[0].uniform(-r, r, (o,))))
        else:
            self.register_parameter("bias", None)

    def forward(self, x):
        out = matmul(x, self.weight.t())
        return out if self.bias is None else out + self.bias


class LayerNorm(Module):
    def __init__(self, shape, eps=1e-5, elementwise_affine=True):
        super().__init__()
        self.shape = (int(shape),) if isinstance(shape, numbers.Integral) else tuple(shape)
        self.eps = eps

    def forward(self, x):
        if tuple(x.shape[-len(self.shape):]) != self.shape or len(self.shape) != 1:
            raise RuntimeError("Given normalized_shape=%s" % (self.shape,))
        m = x.mean(dim=-1, keepdim=True)
        d = x - m
        v = (d * d).mean(dim=-1, keepdim=True)
        return d / (v + self.eps).sqrt()


class init:
    @staticmethod
    def zeros_(p):
        p._a[...] = 0
        return p

    @staticmethod
    def uniform_(p, lo=0.0, hi=1.0):
        p._a[...] = _RNG[0].uniform(lo, hi, p._a.shape)
        return p


def _mean(t, reduction):
    if reduction == "mean":
        return t.mean()
    if reduction == "sum":
        return t.sum()
    if reduction == "none":
        return t
    raise ValueError(reduction)


class functional:
    @staticmethod
    def binary_cross_entropy_with_logits(input, target, reduction="mean", **kw):  # noqa: A002
        if kw:
            raise Inconclusive("bce")
        a, y = input._a, target._a
        s = 1 / (1 + np.exp(-np.clip(a, -500, 500)))
        out = np.maximum(a, 0) - a * y + np.log1p(np.exp(-np.abs(a)))
        return _mean(_op(out, [input], lambda g: [g * (s - y)]), reduction)

    @staticmethod
    def cross_entropy(input, target, reduction="mean", **kw):  # noqa: A002
        if kw:
            raise Inconclusive("cross entropy")
        a = input._a
        m = a.max(axis=1, keepdims=True)
        ls = a - m - np.log(np.exp(a - m).sum(axis=1, keepdims=True))
        k = target._a
        one = np.zeros(a.shape)
        one[np.arange(len(k)), k] = 1
        return _mean(_op(-ls[np.arange(len(k)), k], [input], lambda g: [g[:, None] * (np.exp(ls) - one)]), reduction)

    @staticmethod
    def poisson_nll_loss(input, target, log_input=True, full=False, reduction="mean", **kw):  # noqa: A002
        if full or kw or not log_input:
            raise Inconclusive("poisson nll")
        return _mean(input.exp() - target * input, reduction)

    softmax = staticmethod(softmax)
    sigmoid = staticmethod(sigmoid)

    @staticmethod
    def layer_norm(x, shape, eps=1e-5):
        return LayerNorm(shape[0], eps)(x)

    @staticmethod
    def mse_loss(input, target, reduction="mean"):  # noqa: A002
        return _mean((input - target) ** 2, reduction)


class Optimizer:
    def __init__(self, params, defaults):
        self.param_groups = [{"params": list(params)}]

    def zero_grad(self):
        for p in self.param_groups[0]["params"]:
            if p.grad is not None:
                p.grad = Tensor._wrap(np.zeros(p._a.shape))


def install(module):
    """module(name, **contents) makes a module."""
    import types

    def strict(m):
        name = m.__name__

        def ga(k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Inconclusive("%s stand-in: %s" % (name, k))

        m.__getattr__ = ga
        return m

    fn = {k: v for k, v in globals().items() if not k.startswith("_") and k not in ("np", "functools", "Inconclusive", "install", "init", "functional", "float_", "Node")}
    t = strict(module("torch", __path__=[], **fn))
    t.abs = globals()["abs"]
    t.float = t.float32 = t.float64 = t.double = np.float64
    t.Size = tuple
    nn = strict(module("torch.nn", __path__=[], Module=Module, ModuleList=ModuleList, Linear=Linear, LayerNorm=LayerNorm, Parameter=Parameter))
    nn.init = strict(module("torch.nn.init", zeros_=init.zeros_, uniform_=init.uniform_))
    nn.functional = strict(module("torch.nn.functional", **{k: getattr(functional, k) for k in vars(functional) if not k.startswith("_")}))
    t.nn = nn
    t.optim = strict(module("torch.optim", Optimizer=Optimizer))
    t.autograd = strict(module("torch.autograd", grad=autograd.grad))
    assert isinstance(t, types.ModuleType)
