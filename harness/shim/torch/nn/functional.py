import math
import numpy as np
import torch as t
from torch import Tensor, Unsupported, relu, sigmoid, softmax, tanh      # noqa: F401


def _pair(v):
    v = tuple(int(x) for x in v) if isinstance(v, (tuple, list)) else (int(v), int(v))
    if len(v) == 1:
        v = v * 2
    if len(v) != 2:
        raise RuntimeError(f'expected a pair, got {v}')
    return v


def _win(a, k, s, p, d, fill, ceil=False):
    """[n, c, oh, ow, kh, kw] windows."""
    (kh, kw), (sh, sw), (ph, pw), (dh, dw) = k, s, p, d
    if 2 * ph > 10**6:
        raise Unsupported('pads')
    H, W = a.shape[2] + 2 * ph, a.shape[3] + 2 * pw
    eh, ew = dh * (kh - 1) + 1, dw * (kw - 1) + 1

    def out(n, e, st, raw, pd):
        if not ceil:
            return (n - e) // st + 1
        o = -(-(n - e) // st) + 1
        return o - 1 if (o - 1) * st >= raw + pd else o
    oh, ow = out(H, eh, sh, a.shape[2], ph), out(W, ew, sw, a.shape[3], pw)
    if oh <= 0 or ow <= 0:
        raise RuntimeError('Calculated padded input size per channel is smaller than the kernel size')
    b = np.full(a.shape[:2] + (max(H, (oh - 1) * sh + eh), max(W, (ow - 1) * sw + ew)), fill, a.dtype)
    b[:, :, ph:ph + a.shape[2], pw:pw + a.shape[3]] = a
    r = np.empty(a.shape[:2] + (oh, ow, kh, kw), a.dtype)
    for i in range(kh):
        for j in range(kw):
            r[..., i, j] = b[:, :, i * dh:i * dh + (oh - 1) * sh + 1:sh, j * dw:j * dw + (ow - 1) * sw + 1:sw]
    return r


def conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if isinstance(padding, str):
        raise Unsupported('conv2d padding by name')
    if x.dim() != 4 or w.dim() != 4:
        raise RuntimeError(f'Expected 4D input to conv2d, got {tuple(x.shape)} and {tuple(w.shape)}')
    M, g = w.shape[0], groups
    if x.shape[1] != w.shape[1] * g:
        raise RuntimeError('Given groups and weight, expected other channels')
    k = _win(x.a, w.shape[2:], _pair(stride), _pair(padding), _pair(dilation), 0)
    n, c, oh, ow = k.shape[:4]
    k = k.reshape(n, g, c // g, oh, ow, *k.shape[4:])
    ww = w.a.reshape(g, M // g, *w.shape[1:])
    r = np.einsum('ngcxyij,gmcij->ngmxy', k, ww).reshape(n, M, oh, ow)
    if bias is not None:
        r = r + bias.a.reshape(1, -1, 1, 1)
    return Tensor(r.astype(x.a.dtype))


def conv1d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    f = lambda v: v[0] if isinstance(v, (tuple, list)) else v
    r = conv2d(x.unsqueeze(2), w.unsqueeze(2), bias, (1, f(stride)), (0, f(padding)), (1, f(dilation)), groups)
    return r.squeeze(2)


def _four(x):
    if x.dim() == 3:
        return x.unsqueeze(0), True
    if x.dim() != 4:
        raise RuntimeError(f'Expected 3D or 4D input, got {tuple(x.shape)}')
    return x, False


def max_pool2d(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
    if return_indices:
        raise Unsupported('return_indices')
    k = _pair(kernel_size)
    p = _pair(padding)
    if p[0] > k[0] // 2 or p[1] > k[1] // 2:
        raise RuntimeError('pad should be at most half of effective kernel size')
    x, _ = _four(x)
    return Tensor(_win(x.a, k, _pair(stride or kernel_size), p, _pair(dilation), -np.inf, ceil_mode).max(axis=(4, 5)))


def avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    k = _pair(kernel_size)
    p = _pair(padding)
    if p[0] > k[0] // 2 or p[1] > k[1] // 2:
        raise RuntimeError('pad should be at most half of effective kernel size')
    if divisor_override:
        raise Unsupported('divisor_override')
    x, _ = _four(x)
    s = _pair(stride or kernel_size)
    v = _win(x.a.astype('f8'), k, s, p, (1, 1), 0, ceil_mode).sum(axis=(4, 5))
    one = np.ones(x.a.shape)
    if count_include_pad:
        one = np.pad(one, ((0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])), constant_values=1)
        n = _win(one, k, s, (0, 0), (1, 1), 0, ceil_mode).sum(axis=(4, 5))[:, :, :v.shape[2], :v.shape[3]]
    else:
        n = _win(one, k, s, p, (1, 1), 0, ceil_mode).sum(axis=(4, 5))
    return Tensor((v / n).astype(x.a.dtype))


def adaptive_avg_pool2d(x, size):
    if _pair(size) != (1, 1):
        raise Unsupported('adaptive_avg_pool2d')
    return Tensor(x.a.mean(axis=(-2, -1), keepdims=True, dtype='f8').astype(x.a.dtype))


def batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=0.1, eps=1e-5):
    if training:
        raise Unsupported('training')
    f = lambda v, d: d if v is None else v.a.astype('f8').reshape((1, -1) + (1,) * (x.a.ndim - 2))
    r = (x.a - f(running_mean, 0)) / np.sqrt(f(running_var, 1) + eps) * f(weight, 1) + f(bias, 0)
    return Tensor(r.astype(x.a.dtype))


def layer_norm(x, shape, weight=None, bias=None, eps=1e-5):
    ax = tuple(range(-len(shape), 0))
    a = x.a.astype('f8')
    r = (a - a.mean(axis=ax, keepdims=True)) / np.sqrt(a.var(axis=ax, keepdims=True) + eps)
    return Tensor((r * (1 if weight is None else weight.a) + (0 if bias is None else bias.a)).astype(x.a.dtype))


def leaky_relu(x, negative_slope=0.01):
    return Tensor(np.where(x.a >= 0, x.a, x.a * x.a.dtype.type(negative_slope)))


def silu(x):
    return Tensor((x.a * sigmoid(x).a).astype(x.a.dtype))


def gelu(x, approximate='none'):
    a = x.a.astype('f8')
    if approximate == 'none':
        r = a * .5 * (1 + np.vectorize(math.erf, otypes=['f8'])(a / math.sqrt(2)))
    else:
        r = .5 * a * (1 + np.tanh(math.sqrt(2 / math.pi) * (a + 0.044715 * a**3)))
    return Tensor(r.astype(x.a.dtype))


def linear(x, w, b=None):
    r = t.matmul(x, w.T)
    return r if b is None else r + b


def pad(x, p, mode='constant', value=None):
    p = [int(v) for v in p]
    if len(p) % 2 or len(p) // 2 > x.dim():
        raise RuntimeError('Padding length should be less than or equal to two times the input dimension')
    n = x.dim()
    pw = [(0, 0)] * n
    for k in range(len(p) // 2):
        pw[n - 1 - k] = (p[2 * k], p[2 * k + 1])
    a = x.a
    if any(v < 0 for v in p):
        if mode != 'constant':
            raise Unsupported('negative pads')
        a = a[tuple(slice(max(0, -b), a.shape[k] - max(0, -e)) for k, (b, e) in enumerate(pw))]
        pw = [(max(0, b), max(0, e)) for b, e in pw]
    if mode == 'constant':
        return Tensor(np.pad(a, pw, constant_values=0 if value is None else value))
    if len(p) // 2 not in {2: (1,), 3: (1, 2), 4: (2, 3), 5: (3,)}.get(n, ()):
        raise NotImplementedError('Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now')
    if mode in ('replicate', 'reflect', 'circular'):
        if value is not None and value != 0:
            raise RuntimeError(f'Padding mode "{mode}" doesn\'t take in value argument')
        return Tensor(np.pad(a, pw, mode={'replicate': 'edge', 'reflect': 'reflect', 'circular': 'wrap'}[mode]))
    raise NotImplementedError(mode)


def interpolate(x, size=None, scale_factor=None, mode='nearest', align_corners=None, **k):
    if mode not in ('nearest', 'bilinear') or size is None or x.dim() != 4:
        raise Unsupported(f'interpolate {mode}')
    h, w = (int(v) for v in (size if isinstance(size, (tuple, list)) else (size, size)))
    H, W = x.shape[2:]
    if mode == 'nearest':
        if align_corners is not None:
            raise ValueError('align_corners option can only be set with the interpolating modes')
        return Tensor(x.a[:, :, [i * H // h for i in range(h)]][:, :, :, [i * W // w for i in range(w)]])

    def axis(n, N):
        if align_corners:
            c = np.arange(n) * ((N - 1) / (n - 1) if n > 1 else 0)
        else:
            c = np.maximum((np.arange(n) + .5) * N / n - .5, 0)
        lo = np.minimum(np.floor(c).astype(int), N - 1)
        return lo, np.minimum(lo + 1, N - 1), c - lo
    a = x.a.astype('f8')
    l, u, f = axis(h, H)
    a = a[:, :, l] * (1 - f)[None, None, :, None] + a[:, :, u] * f[None, None, :, None]
    l, u, f = axis(w, W)
    return Tensor((a[..., l] * (1 - f) + a[..., u] * f).astype(x.a.dtype))


def scaled_dot_product_attention(q, k, v, attn_mask=None, dropout_p=0.0, is_causal=False, scale=None, **kw):
    raise Unsupported('scaled_dot_product_attention')


def __getattr__(n):
    if n.startswith('__'):
        raise AttributeError(n)
    raise Unsupported('functional.' + n)
