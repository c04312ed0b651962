"""The part of torch the inference package calls, on numpy arrays (torch is not installed here).

Views share memory, `out=` writes in place and never resizes, fresh memory holds garbage, as in torch.
What is missing raises Unsupported, which the harness takes as outside what it can run."""
import math
import numpy as np


class Unsupported(Exception):
    pass


class dtype:
    def __init__(self, name, np_):
        self.name, self.np = name, np.dtype(np_)

    def __repr__(self):
        return 'torch.' + self.name

    @property
    def itemsize(self):
        return self.np.itemsize

    @property
    def is_floating_point(self):
        return self.np.kind == 'f'


_all = [dtype(n, t) for n, t in (('float32', 'f4'), ('float64', 'f8'), ('float16', 'f2'), ('int64', 'i8'), ('int32', 'i4'), ('int16', 'i2'), ('int8', 'i1'),
                                 ('uint8', 'u1'), ('bool', '?'))]
for _d in _all:
    globals()[_d.name] = _d
float, double, half, long, int = float32, float64, float16, int64, int32      # noqa: F821
_of = {d.np: d for d in _all}
import builtins
_int, _float, _bool = builtins.int, builtins.float, builtins.bool
del builtins
strided = 'strided'
contiguous_format = 'contiguous'


class Size(tuple):
    def numel(self):
        return math.prod(self)


class device:
    def __init__(self, t='cpu', i=None):
        self.type = str(t).split(':')[0]

    def __eq__(self, o):
        return self.type == (o.type if isinstance(o, device) else str(o).split(':')[0])

    def __hash__(self):
        return hash(self.type)

    def __str__(self):
        return self.type


def _np(x):
    return x.a if isinstance(x, Tensor) else x


def _wrap(a):
    a = np.asarray(a)
    if a.dtype not in _of:
        raise Unsupported(f'dtype {a.dtype}')
    return Tensor(a)


def _seq(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list, Size)):
        s = s[0]
    return tuple(_int(_np(x)) for x in s)


def _axis(d):
    return tuple(_int(x) for x in d) if isinstance(d, (tuple, list)) else d if d is None else _int(d)


def _kind(d):
    return 0 if d.kind == 'b' else 1 if d.kind in 'iu' else 2


def _promote(*xs):
    """torch's result type: numbers and 0-d tensors count only if they are of a higher category."""
    full = [x.a.dtype for x in xs if isinstance(x, Tensor) and x.a.ndim]
    zero = [x.a.dtype for x in xs if isinstance(x, Tensor) and not x.a.ndim]
    num = [np.dtype('?') if isinstance(x, _bool) else np.dtype('i8') if isinstance(x, _int) else np.dtype('f4') for x in xs if not isinstance(x, Tensor)]
    res = None
    for group in (full, zero, num):
        if group:
            t = group[0]
            for g in group[1:]:
                t = np.promote_types(t, g) if _kind(t) != _kind(g) or True else t
                if t == np.dtype('f8') and not any(x == np.dtype('f8') for x in group):
                    t = np.dtype('f4')
            if res is None or _kind(t) > _kind(res):
                res = t
    return res


def _res(v, out):
    v = np.asarray(v)
    if out is None:
        return _wrap(v)
    if tuple(v.shape) != tuple(out.a.shape):
        raise RuntimeError(f'out of shape {tuple(out.a.shape)} would be resized to {tuple(v.shape)}')
    if _kind(v.dtype) > _kind(out.a.dtype):
        raise RuntimeError(f"result type {v.dtype} can't be cast to {out.a.dtype}")
    out.a[...] = v.astype(out.a.dtype)
    return out


def _bin(f, x, y, out=None, div=False):
    t = _promote(x, y)
    if div and _kind(t) < 2:
        t = np.dtype('f4')
    a, b = (np.asarray(_np(v)).astype(t) for v in (x, y))
    with np.errstate(all='ignore'):
        return _res(f(a, b), out)


def _cmp(f, x, y, out=None):
    return _res(f(np.asarray(_np(x)), np.asarray(_np(y))), out)


def _unf(f, x, out=None):
    a = x.a if x.a.dtype.kind == 'f' else x.a.astype('f4')
    with np.errstate(all='ignore'):
        return _res(np.asarray(f(a)).astype(a.dtype), out)


class Tensor:
    __array_priority__ = 1000

    def __init__(self, a):
        self.a = a

    # what it is
    shape = property(lambda s: Size(s.a.shape))
    dtype = property(lambda s: _of[s.a.dtype])
    ndim = property(lambda s: s.a.ndim)
    T = property(lambda s: Tensor(s.a.T))
    mT = property(lambda s: Tensor(np.swapaxes(s.a, -1, -2)))
    device = property(lambda s: device('cpu'))
    data = property(lambda s: s)
    nbytes = property(lambda s: s.a.nbytes)
    is_xpu = is_cuda = requires_grad = False

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def dim(self):
        return self.a.ndim

    def numel(self):
        return _int(self.a.size)

    nelement = numel

    def element_size(self):
        return self.a.itemsize

    def is_floating_point(self):
        return self.a.dtype.kind == 'f'

    def is_contiguous(self, *k, **kw):
        return self.a.flags['C_CONTIGUOUS']

    def data_ptr(self):
        return self.a.__array_interface__['data'][0]

    def __len__(self):
        return len(self.a)

    def __repr__(self):
        return 'tensor' + repr(self.a)[5:]

    def __bool__(self):
        return _bool(self.a)

    def __float__(self):
        return _float(self.a)

    def __int__(self):
        return _int(self.a)

    __index__ = __int__

    def __iter__(self):
        return (Tensor(np.asarray(self.a[i:i + 1][0]) if self.a.ndim == 1 else self.a[i]) for i in range(len(self.a)))

    def item(self):
        if self.a.size != 1:
            raise RuntimeError(f'a Tensor with {self.a.size} elements cannot be converted to Scalar')
        return self.a.item()

    def tolist(self):
        return self.a.tolist()

    def numpy(self, **k):
        return self.a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)

    # copies and conversions
    def cpu(self):
        return self

    detach = cpu

    def clone(self, **k):
        return Tensor(self.a.copy())

    def contiguous(self, **k):
        return self if self.a.flags['C_CONTIGUOUS'] else Tensor(np.ascontiguousarray(self.a).reshape(self.a.shape))

    def to(self, *args, device=None, dtype=None, copy=False, **k):
        for x in args:
            if isinstance(x, globals()['dtype']):
                dtype = x
            elif isinstance(x, Tensor):
                dtype = x.dtype
        if dtype is None or dtype.np == self.a.dtype:
            return self.clone() if copy else self
        with np.errstate(all='ignore'):
            return Tensor(self.a.astype(dtype.np))

    def type(self, t):
        return self.to(dtype=t)

    def type_as(self, o):
        return self.to(dtype=o.dtype)

    def float(self):
        return self.to(float32)

    def double(self):
        return self.to(float64)

    def half(self):
        return self.to(float16)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def bool(self):
        return self.to(globals()['bool'])

    # in place
    def copy_(self, src, non_blocking=False):
        s = np.asarray(_np(src))
        try:
            b = np.broadcast_to(s, self.a.shape)
        except ValueError:
            raise RuntimeError(f'The size of tensor a {self.a.shape} must match the size of tensor b {s.shape}')
        if np.shares_memory(b, self.a):
            b = b.copy()
        with np.errstate(all='ignore'):
            self.a[...] = b.astype(self.a.dtype)
        return self

    def zero_(self):
        self.a[...] = 0
        return self

    def fill_(self, v):
        self.a[...] = _np(v)
        return self

    def _ip(self, f, o, div=False):
        r = _bin(f, self, o, None, div)
        if r.a.shape != self.a.shape:
            raise RuntimeError(f'output with shape {self.a.shape} does not match the broadcast shape {r.a.shape}')
        if _kind(r.a.dtype) > _kind(self.a.dtype):
            raise RuntimeError('result type cannot be cast')
        self.a[...] = r.a.astype(self.a.dtype)
        return self

    def add_(self, o, alpha=1):
        return self._ip(np.add, o if alpha == 1 else _bin(np.multiply, o, alpha))

    def sub_(self, o, alpha=1):
        return self._ip(np.subtract, o if alpha == 1 else _bin(np.multiply, o, alpha))

    def mul_(self, o):
        return self._ip(np.multiply, o)

    def div_(self, o):
        return self._ip(np.divide, o, True)

    def pow_(self, o):
        return self._ip(np.power, o)

    def clamp_(self, min=None, max=None):
        return self.copy_(clamp(self, min, max))

    __iadd__, __isub__, __imul__, __itruediv__ = add_, sub_, mul_, div_

    def relu_(self):
        return self.copy_(relu(self))

    def sigmoid_(self):
        return self.copy_(sigmoid(self))

    def tanh_(self):
        return self.copy_(tanh(self))

    def masked_fill_(self, m, v):
        self.a[np.broadcast_to(_np(m), self.a.shape)] = _np(v)
        return self

    def masked_fill(self, m, v):
        shape = np.broadcast_shapes(self.a.shape, _np(m).shape)
        r = Tensor(np.broadcast_to(self.a, shape).copy())
        return r.masked_fill_(m, v)

    # arithmetic
    def __add__(self, o): return _bin(np.add, self, o)
    def __radd__(self, o): return _bin(np.add, o, self)
    def __sub__(self, o): return _bin(np.subtract, self, o)
    def __rsub__(self, o): return _bin(np.subtract, o, self)
    def __mul__(self, o): return _bin(np.multiply, self, o)
    def __rmul__(self, o): return _bin(np.multiply, o, self)
    def __truediv__(self, o): return _bin(np.divide, self, o, None, True)
    def __rtruediv__(self, o): return _bin(np.divide, o, self, None, True)
    def __floordiv__(self, o): return _bin(np.floor_divide, self, o)
    def __mod__(self, o): return remainder(self, o)
    def __pow__(self, o): return _bin(np.power, self, o)
    def __rpow__(self, o): return _bin(np.power, o, self)
    def __neg__(self): return Tensor(-self.a)
    def __matmul__(self, o): return matmul(self, o)
    def __eq__(self, o): return _cmp(np.equal, self, o)
    def __ne__(self, o): return _cmp(np.not_equal, self, o)
    def __lt__(self, o): return _cmp(np.less, self, o)
    def __le__(self, o): return _cmp(np.less_equal, self, o)
    def __gt__(self, o): return _cmp(np.greater, self, o)
    def __ge__(self, o): return _cmp(np.greater_equal, self, o)
    def __invert__(self): return Tensor(~self.a)
    def __and__(self, o): return Tensor(self.a & _np(o))
    def __or__(self, o): return Tensor(self.a | _np(o))
    __hash__ = object.__hash__

    # views
    @staticmethod
    def _ix(i):
        if isinstance(i, tuple):
            return tuple(Tensor._ix(x) for x in i)
        if isinstance(i, slice):
            if i.step is not None and _int(i.step) <= 0:
                raise ValueError('step must be greater than zero')
            return slice(*(None if x is None else _int(x) for x in (i.start, i.stop, i.step)))
        if isinstance(i, Tensor):
            return i.a
        return i

    def __getitem__(self, i):
        return Tensor(np.asarray(self.a[Tensor._ix(i)])) if not isinstance(i, _int) or self.a.ndim > 1 else Tensor(self.a[i:i + 1 if i != -1 else None].reshape(()))

    def __setitem__(self, i, v):
        i = Tensor._ix(i)
        t = self.a[i]
        try:
            s = np.broadcast_to(np.asarray(_np(v)), np.shape(t))
        except ValueError:
            raise RuntimeError(f'shape mismatch: {np.shape(_np(v))} into {np.shape(t)}')
        self.a[i] = np.asarray(s).astype(self.a.dtype)

    def view(self, *s, dtype=None):
        if dtype is not None or (len(s) == 1 and isinstance(s[0], globals()['dtype'])):
            d = (dtype or s[0]).np
            if self.a.itemsize < d.itemsize:
                if self.a.ndim == 0 or self.a.shape[-1] * self.a.itemsize % d.itemsize:
                    raise RuntimeError(f'self.size(-1) must be divisible by {d.itemsize // self.a.itemsize} to view as {d}')
                start = self.a.__array_interface__['data'][0] - (self.a.base if self.a.base is not None else self.a).__array_interface__['data'][0]
                if start % d.itemsize:
                    raise RuntimeError('self.storage_offset() must be divisible')
            return Tensor(self.a.view(d))
        s = _seq(s)
        b = self.a.view()
        try:
            r = self.a.reshape(s)
        except ValueError:
            raise RuntimeError(f"shape '{list(s)}' is invalid for input of size {self.a.size}")
        if self.a.size and not np.shares_memory(r, b):
            raise RuntimeError('view size is not compatible with input tensor')
        return Tensor(r)

    def reshape(self, *s):
        s = _seq(s)
        try:
            return Tensor(self.a.reshape(s))
        except ValueError:
            raise RuntimeError(f"shape '{list(s)}' is invalid for input of size {self.a.size}")

    def view_as(self, o):
        return self.view(o.shape)

    def reshape_as(self, o):
        return self.reshape(o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        if self.a.ndim == 0:
            return Tensor(self.a.reshape(1))
        e = end_dim % self.a.ndim
        st = start_dim % self.a.ndim
        return Tensor(self.a.reshape(self.a.shape[:st] + (-1,) + self.a.shape[e + 1:]))

    def unflatten(self, d, s):
        d %= self.a.ndim
        return Tensor(self.a.reshape(self.a.shape[:d] + tuple(s) + self.a.shape[d + 1:]))

    def permute(self, *p):
        return Tensor(self.a.transpose(_seq(p)))

    def transpose(self, i, j):
        return Tensor(np.swapaxes(self.a, i, j))

    swapaxes = transpose

    def t(self):
        return Tensor(self.a.T)

    def movedim(self, i, j):
        return Tensor(np.moveaxis(self.a, i, j))

    def squeeze(self, dim=None):
        if dim is None:
            return Tensor(self.a.squeeze())
        ds = _axis(dim if isinstance(dim, (tuple, list)) else (dim,))
        return Tensor(self.a.squeeze(tuple(d for d in ds if self.a.shape[d] == 1)))

    def unsqueeze(self, d):
        d = _int(d)
        if not -self.a.ndim - 1 <= d <= self.a.ndim:
            raise IndexError(f'Dimension out of range (got {d})')
        return Tensor(np.expand_dims(self.a, d))

    def expand(self, *s):
        s = _seq(s)
        off = len(s) - self.a.ndim
        if off < 0:
            raise RuntimeError('the number of sizes provided must be greater or equal to the number of dimensions')
        s = tuple(self.a.shape[k - off] if x == -1 else x for k, x in enumerate(s))
        for k in range(self.a.ndim):
            if self.a.shape[k] not in (1, s[k + off]):
                raise RuntimeError(f'The expanded size of the tensor {s} must match the existing size {self.a.shape}')
        return Tensor(np.broadcast_to(self.a, s))

    def expand_as(self, o):
        return self.expand(o.shape)

    def repeat(self, *s):
        s = _seq(s)
        if len(s) < self.a.ndim:
            raise RuntimeError('Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor')
        return Tensor(np.tile(self.a, s))

    def repeat_interleave(self, n, dim=None):
        return Tensor(np.repeat(self.a, n, axis=dim))

    def narrow(self, d, s, n):
        return Tensor(self.a[tuple(slice(None) if k != d % self.a.ndim else slice(s, s + n) for k in range(self.a.ndim))])

    def select(self, d, i):
        return Tensor(np.take(self.a, i, axis=d))

    def chunk(self, n, dim=0):
        return chunk(self, n, dim)

    def split(self, n, dim=0):
        return split(self, n, dim)

    def index_select(self, d, i):
        return index_select(self, d, i)

    def gather(self, d, i):
        return gather(self, d, i)

    # reductions and functions
    def _red(self, f, dim, keepdim, want_float=False):
        if want_float and self.a.dtype.kind != 'f':
            raise RuntimeError('mean(): could not infer output dtype')
        return _wrap(np.asarray(f(self.a, axis=_axis(dim), keepdims=keepdim)).astype(self.a.dtype if self.a.dtype.kind == 'f' or f in (np.max, np.min) else 'i8'))

    @staticmethod
    def _needs_dim(dim, k):
        if 'keepdim' in k and dim is None:
            raise TypeError('mean() received an invalid combination of arguments - got (keepdim=bool)')

    def mean(self, dim=None, **k):
        Tensor._needs_dim(dim, k)
        return self._red(np.mean, dim, k.get('keepdim', False), True)

    def sum(self, dim=None, **k):
        Tensor._needs_dim(dim, k)
        return self._red(np.sum, dim, k.get('keepdim', False))

    def amax(self, dim=(), keepdim=False):
        return self._red(np.max, None if dim in ((), []) else dim, keepdim)

    def amin(self, dim=(), keepdim=False):
        return self._red(np.min, None if dim in ((), []) else dim, keepdim)

    def max(self, dim=None, keepdim=False):
        if dim is not None:
            return self.amax(dim, keepdim), self.argmax(dim, keepdim)
        return _wrap(self.a.max())

    def min(self, dim=None, keepdim=False):
        if dim is not None:
            return self.amin(dim, keepdim), _wrap(np.argmin(self.a, axis=dim, keepdims=keepdim))
        return _wrap(self.a.min())

    def argmax(self, dim=None, keepdim=False):
        return _wrap(np.asarray(np.argmax(self.a, axis=dim, keepdims=keepdim)).astype('i8'))

    def var(self, dim=None, keepdim=False, unbiased=True, correction=None):
        c = (1 if unbiased else 0) if correction is None else correction
        return _wrap(np.var(self.a, axis=_axis(dim), keepdims=keepdim, ddof=c).astype(self.a.dtype))

    def any(self, dim=None): return _wrap(np.any(self.a, axis=dim))
    def all(self, dim=None): return _wrap(np.all(self.a, axis=dim))
    def abs(self): return Tensor(np.abs(self.a))
    def neg(self): return Tensor(-self.a)
    def add(self, o, alpha=1): return add(self, o, alpha=alpha)
    def sub(self, o, alpha=1): return sub(self, o, alpha=alpha)
    def mul(self, o): return mul(self, o)
    def div(self, o): return div(self, o)
    def pow(self, n): return _bin(np.power, self, n)
    def sqrt(self): return sqrt(self)
    def rsqrt(self): return rsqrt(self)
    def exp(self): return exp(self)
    def sigmoid(self): return sigmoid(self)
    def tanh(self): return tanh(self)
    def relu(self): return relu(self)
    def clamp(self, min=None, max=None): return clamp(self, min, max)
    def matmul(self, o): return matmul(self, o)
    def mm(self, o): return mm(self, o)
    def softmax(self, dim): return softmax(self, dim)
    def eq(self, o): return _cmp(np.equal, self, o)
    def gt(self, o): return _cmp(np.greater, self, o)
    def lt(self, o): return _cmp(np.less, self, o)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('Tensor.' + n)


def _shape_args(s, size=None):
    return _seq(s) if s else _seq((size,)) if size is not None else ()


def empty(*s, size=None, dtype=float32, device=None, **k):
    t = Tensor(np.empty(_shape_args(s, size), dtype.np))
    t.a.view('u1' if t.a.ndim else None)[...] = 0xA5 if t.a.dtype.kind == 'u' and t.a.itemsize == 1 else 0
    if t.a.dtype.kind == 'f':
        t.a[...] = np.nan
    return t


def zeros(*s, size=None, dtype=float32, device=None, **k): return Tensor(np.zeros(_shape_args(s, size), dtype.np))
def ones(*s, size=None, dtype=float32, device=None, **k): return Tensor(np.ones(_shape_args(s, size), dtype.np))
def empty_like(x, **k): return empty(x.shape, dtype=x.dtype)
def zeros_like(x, dtype=None, **k): return Tensor(np.zeros(x.a.shape, dtype.np if dtype else x.a.dtype))
def ones_like(x, dtype=None, **k): return Tensor(np.ones(x.a.shape, dtype.np if dtype else x.a.dtype))


def full(s, v, dtype=None, device=None, **k):
    d = dtype.np if dtype else np.dtype('?') if isinstance(v, _bool) else np.dtype('i8') if isinstance(v, _int) else np.dtype('f4')
    return Tensor(np.full(_seq((s,)), v, d))


def tensor(x, dtype=None, device=None, **k):
    a = np.array(_np(x) if not isinstance(x, (list, tuple)) else [_np(v) for v in x])
    if dtype is not None:
        a = a.astype(dtype.np)
    elif not isinstance(x, (np.ndarray, np.generic, Tensor)) and a.dtype == np.dtype('f8'):
        a = a.astype('f4')
    return _wrap(a)


as_tensor = tensor


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError(f'expected np.ndarray (got {type(a).__name__})')
    return _wrap(a)


def arange(*v, dtype=None, device=None, **k):
    v = [_np(x) for x in v]
    a = np.arange(*v)
    return Tensor(a.astype(dtype.np if dtype else 'i8' if a.dtype.kind in 'iu' else 'f4'))


def add(x, y, alpha=1, out=None): return _bin(np.add, x, y if alpha == 1 else _bin(np.multiply, y, alpha), out)
def sub(x, y, alpha=1, out=None): return _bin(np.subtract, x, y if alpha == 1 else _bin(np.multiply, y, alpha), out)
def mul(x, y, out=None): return _bin(np.multiply, x, y, out)


def div(x, y, out=None, rounding_mode=None):
    if rounding_mode == 'floor':
        return _bin(np.floor_divide, x, y, out)
    r = _bin(np.divide, x, y, None, True)
    if rounding_mode == 'trunc':
        r = Tensor(np.trunc(r.a).astype(_promote(x, y)))
    return _res(r.a, out)


subtract, multiply, divide, true_divide = sub, mul, div, div
def pow(x, y, out=None): return _bin(np.power, x, y, out)
def remainder(x, y, out=None): return _bin(np.mod, x, y, out)
def fmod(x, y, out=None): return _bin(np.fmod, x, y, out)
def maximum(x, y, out=None): return _bin(np.maximum, x, y, out)
def minimum(x, y, out=None): return _bin(np.minimum, x, y, out)
def eq(x, y, out=None): return _cmp(np.equal, x, y, out)
def ne(x, y, out=None): return _cmp(np.not_equal, x, y, out)
def gt(x, y, out=None): return _cmp(np.greater, x, y, out)
def ge(x, y, out=None): return _cmp(np.greater_equal, x, y, out)
def lt(x, y, out=None): return _cmp(np.less, x, y, out)
def le(x, y, out=None): return _cmp(np.less_equal, x, y, out)
greater, less, greater_equal, less_equal, not_equal = gt, lt, ge, le, ne
def neg(x, out=None): return _res(-x.a, out)
def abs(x, out=None): return _res(np.abs(x.a), out)
def sqrt(x, out=None): return _unf(np.sqrt, x, out)
def rsqrt(x, out=None): return _unf(lambda a: 1 / np.sqrt(a), x, out)
def exp(x, out=None): return _unf(np.exp, x, out)
def log(x, out=None): return _unf(np.log, x, out)
def sigmoid(x, out=None): return _unf(lambda a: 1 / (1 + np.exp(-a.astype('f8'))), x, out)
def tanh(x, out=None): return _unf(np.tanh, x, out)
def erf(x, out=None): return _unf(np.vectorize(math.erf, otypes=['f8']), x, out)
def relu(x): return Tensor(np.where(np.isnan(x.a), x.a, np.maximum(x.a, 0)).astype(x.a.dtype))
def floor(x, out=None): return _res(np.floor(x.a), out)
def ceil(x, out=None): return _res(np.ceil(x.a), out)
def round(x, out=None): return _res(np.round(x.a), out)


def clamp(x, min=None, max=None, out=None):
    a = x.a
    if min is not None:
        a = np.maximum(a, np.asarray(_np(min)).astype(a.dtype))
    if max is not None:
        a = np.minimum(a, np.asarray(_np(max)).astype(a.dtype))
    return _res(a, out)


clip = clamp


def where(c, x=None, y=None, out=None):
    if x is None:
        return tuple(_wrap(i) for i in np.nonzero(c.a))
    if c.a.dtype.kind not in 'b':
        raise RuntimeError('where expected condition to be a boolean tensor')
    t = _promote(x, y)
    return _res(np.where(c.a, np.asarray(_np(x)).astype(t), np.asarray(_np(y)).astype(t)), out)


def matmul(x, y, out=None):
    if x.a.dtype != y.a.dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype')
    try:
        v = np.matmul(x.a, y.a)
    except ValueError as e:
        raise RuntimeError(str(e))
    return _res(v, out)


def mm(x, y, out=None):
    if x.a.ndim != 2 or y.a.ndim != 2:
        raise RuntimeError('self must be a matrix')
    return matmul(x, y, out)


def bmm(x, y, out=None):
    if x.a.ndim != 3 or y.a.ndim != 3:
        raise RuntimeError('batch1 must be a 3D tensor')
    return matmul(x, y, out)


def addmm(c, x, y, beta=1, alpha=1, out=None): return _res(beta * c.a + alpha * mm(x, y).a, out)


def cat(xs, dim=0, out=None):
    xs = list(xs)
    t = xs[0].a.dtype
    for x in xs[1:]:
        t = np.promote_types(t, x.a.dtype)
    try:
        v = np.concatenate([x.a.astype(t) for x in xs], axis=dim)
    except ValueError as e:
        raise RuntimeError(str(e))
    return _res(v, out)


concat = cat
def stack(xs, dim=0, out=None): return _res(np.stack([x.a for x in xs], axis=dim), out)


def split(x, n, dim=0):
    size = x.a.shape[dim]
    if isinstance(n, _int):
        parts = [n] * (size // n) + ([size % n] if size % n else [])
    else:
        parts = [_int(v) for v in n]
        if sum_(parts) != size:
            raise RuntimeError(f'split_with_sizes expects split_sizes to sum exactly to {size}')
    at, out = 0, []
    for p in parts:
        out.append(x.narrow(dim, at, p))
        at += p
    return tuple(out)


def sum_(s):
    t = 0
    for v in s:
        t += v
    return t


def chunk(x, n, dim=0):
    size = x.a.shape[dim]
    return split(x, max(1, -(-size // n)), dim)


def index_select(x, dim, i, out=None):
    if i.a.ndim > 1:
        raise IndexError('index_select(): Index is supposed to be a vector')
    if i.a.dtype.kind not in 'iu':
        raise RuntimeError('index_select(): Expected dtype int32 or int64 for index')
    idx = np.atleast_1d(i.a)
    if idx.size and (idx.min() < 0 or idx.max() >= x.a.shape[dim]):
        raise IndexError('index out of range in self')
    return _res(np.take(x.a, idx, axis=dim), out)


def gather(x, dim, i, out=None):
    if i.a.dtype != np.dtype('i8'):
        raise RuntimeError('gather(): Expected dtype int64 for index')
    d = dim % x.a.ndim
    if i.a.size and (i.a.min() < 0 or i.a.max() >= x.a.shape[d]):
        raise RuntimeError('index is out of bounds')
    v = np.empty(i.a.shape, x.a.dtype)
    for p in np.ndindex(*i.a.shape):
        q = list(p)
        q[d] = i.a[p]
        v[p] = x.a[tuple(q)]
    return _res(v, out)


def topk(x, k, dim=-1, largest=True, sorted=True):
    if k > x.a.shape[dim]:
        raise RuntimeError('selected index k out of range')
    i = np.argsort(-x.a if largest else x.a, axis=dim, kind='stable')
    i = np.take(i, np.arange(k), axis=dim)
    return Tensor(np.take_along_axis(x.a, i, axis=dim)), Tensor(i.astype('i8'))


def softmax(x, dim=None, dtype=None):
    a = x.a.astype('f8')
    with np.errstate(all='ignore'):
        e = np.exp(a - a.max(axis=dim, keepdims=True))
        return Tensor((e / e.sum(axis=dim, keepdims=True)).astype(x.a.dtype))


def triu(x, diagonal=0): return Tensor(np.where(np.triu(np.ones(x.a.shape, '?'), diagonal), x.a, np.zeros_like(x.a)))
def tril(x, diagonal=0): return Tensor(np.where(np.tril(np.ones(x.a.shape, '?'), diagonal), x.a, np.zeros_like(x.a)))
def transpose(x, i, j): return x.transpose(i, j)
def permute(x, p): return x.permute(p)
def reshape(x, s): return x.reshape(s)
def flatten(x, start_dim=0, end_dim=-1): return x.flatten(start_dim, end_dim)
def squeeze(x, dim=None): return x.squeeze(dim)
def unsqueeze(x, d): return x.unsqueeze(d)
def mean(x, dim=None, **k): return x.mean(dim, **k)
def sum(x, dim=None, **k): return x.sum(dim, **k)
def amax(x, dim=(), keepdim=False): return x.amax(dim, keepdim)
def amin(x, dim=(), keepdim=False): return x.amin(dim, keepdim)
def var(x, dim=None, **k): return x.var(dim, **k)
def argmax(x, dim=None, keepdim=False): return x.argmax(dim, keepdim)
def max(x, *k, **kw): return x.max(*k, **kw) if isinstance(x, Tensor) else __builtins__['max'](x, *k)
def min(x, *k, **kw): return x.min(*k, **kw) if isinstance(x, Tensor) else __builtins__['min'](x, *k)
def numel(x): return x.numel()
def is_tensor(x): return isinstance(x, Tensor)
def equal(x, y): return x.a.shape == y.a.shape and _bool((x.a == y.a).all())
def allclose(x, y, rtol=1e-5, atol=1e-8): return _bool(np.allclose(x.a, y.a, rtol, atol))
def isnan(x): return Tensor(np.isnan(x.a))
def broadcast_to(x, s): return x.expand(s)
def outer(x, y): return Tensor(np.outer(x.a, y.a))
def sin(x, out=None): return _unf(np.sin, x, out)
def cos(x, out=None): return _unf(np.cos, x, out)
def manual_seed(s): pass


def prod(x, *k, **kw):
    raise Unsupported('prod')


class no_grad:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f


inference_mode = no_grad


class _xpu:
    @staticmethod
    def is_available(): return False
    @staticmethod
    def synchronize(*a): pass


xpu = cuda = _xpu
from . import nn      # noqa: E402,F401


def __getattr__(n):
    if n.startswith('__'):
        raise AttributeError(n)
    raise Unsupported('torch.' + n)
