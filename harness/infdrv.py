"""Running the inference package (on the numpy torch of shim/) and recording what its calls return and touch."""
import os, sys
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
from onnx.reference import ReferenceEvaluator
from onnx.reference.op_run import OpRun
import opsdrv as od
import vlib
from vlib import call

ot = vlib.import_repo()
here = os.path.dirname(os.path.abspath(__file__))
for p in (vlib.REPO, os.path.join(vlib.REPO, 'inference'), os.path.join(here, 'shim')):
    sys.path.insert(0, p)
import torch                      # noqa: E402
import memory_pool, kernels, infer as inf      # noqa: E402

F4 = np.float32


class AveragePool(OpRun):
    """The evaluator's own one mistakes windows which overhang under ceil_mode."""
    op_domain = ''

    def _run(self, x, auto_pad=None, ceil_mode=None, count_include_pad=None, dilations=None, kernel_shape=None, pads=None, strides=None):
        assert auto_pad in (None, 'NOTSET')
        n = len(kernel_shape)
        d = dilations or [1] * n
        wide = [(k - 1) * e + 1 for k, e in zip(kernel_shape, d)]
        pads, st = pads or [0] * 2 * n, strides or [1] * n
        size, out = x.shape[2:], []
        for i in range(n):
            span = size[i] + pads[i] + pads[n + i] - wide[i]
            out.append((-(-span // st[i]) if ceil_mode else span // st[i]) + 1)
            if ceil_mode and (out[i] - 1) * st[i] >= size[i] + pads[i]:
                out[i] -= 1
        y = np.zeros(x.shape[:2] + tuple(out), x.dtype)
        for at in np.ndindex(*out):
            win = [[at[i] * st[i] - pads[i] + k * d[i] for k in range(kernel_shape[i])] for i in range(n)]
            cut = x[(slice(None), slice(None)) + np.ix_(*[[p for p in w if 0 <= p < s] for w, s in zip(win, size)])]
            among = np.prod([sum(p < s + pads[n + i] for p in w) for i, (w, s) in enumerate(zip(win, size))]) if count_include_pad else np.prod(cut.shape[2:])
            y[(...,) + at] = cut.reshape(*x.shape[:2], -1).astype('f8').sum(-1) / among
        return (y,)


class Net:
    """A model drawn operator by operator, with weights that are small whole numbers."""

    def __init__(self, r):
        self.r = r
        self.nodes, self.inits, self.k, self.opset = [], [], 0, r.choice([13, 13, 14, 17, 18, 18, 20])
        self.lim = {}
        self.one = False            # the trailing dimensions follow one variable

    def const(self, x):
        n = f'w{len(self.inits)}'
        self.inits.append(numpy_helper.from_array(np.asarray(x), n))
        return n

    def ints(self, *v):
        return self.const(np.array(v, np.int64))

    def weight(self, *s, lo=-2, hi=2):
        return self.const(np.array([self.r.randint(lo, hi) for _ in range(int(np.prod(s)))], F4).reshape(s))

    def op(self, op, ins, n=1, **a):
        self.k += 1
        outs = [f't{self.k}' + ('' if j == 0 else f'_{j}') for j in range(n)]
        self.nodes.append((op, list(ins), outs, a))
        return outs[0] if n == 1 else outs

    def axes(self, op, x, axes, kd=None, since=18):
        """Axes as operand or as attribute, as the version has it."""
        a = {} if kd is None else dict(keepdims=kd)
        if axes is None:
            return self.op(op, [x], **a)
        if self.opset >= since:
            return self.op(op, [x, self.ints(*axes)], **a)
        return self.op(op, [x], axes=list(axes), **a)

    def reduce(self, x, axes, kd):
        o = self.r.choice(['ReduceMean', 'ReduceSum', 'ReduceMax'])
        return self.axes(o, x, axes, kd, 13 if o == 'ReduceSum' else 18)

    def unary(self, x):
        r = self.r
        o = r.choice(['Relu', 'Neg', 'LeakyRelu', 'Sigmoid', 'Tanh', 'Identity', 'Sqrt', 'Erf', 'Clip', 'Softmax'])
        if o == 'LeakyRelu':
            return self.op(o, [x], **({'alpha': .5} if r.random() < .7 else {}))
        if o == 'Sqrt':
            return self.op(o, [self.op('Relu', [x])])
        if o == 'Clip':
            c = [x, self.const(np.array(r.choice([-1, 0]), F4)), self.const(np.array(r.choice([2, 3]), F4))]
            if r.random() < .3:
                c[1] = ''
            return self.op(o, c if r.random() < .7 else c[:2])
        if o == 'Softmax':
            return self.op(o, [x], **({'axis': r.choice([-1, 1])} if r.random() < .7 else {}))
        return self.op(o, [x])

    def binary(self, x, y):
        r = self.r
        o = r.choice(['Add', 'Sub', 'Mul', 'Add', 'Sub', 'Mul', 'Div', 'Where', 'cmp', 'Pow', 'Mod'])
        if o == 'Div':
            return self.op(o, [x, self.op('Add', [self.op('Mul', [y, y]), self.const(np.array(1, F4))])])
        if o in ('cmp', 'Where'):
            c = self.op(r.choice(['Greater', 'Less', 'Equal']), [x, y])
            if o == 'Where':
                return self.op('Where', [c, x, y] if r.random() < .7 else [c, y, x])
            return self.op('Cast', [c], to=1)
        if o == 'Pow':
            return self.op(o, [x, self.const(np.array(2, F4))])
        if o == 'Mod':
            return self.op(o, [x, self.const(np.array(r.choice([2, 3, -2]), F4))], fmod=1)
        return self.op(o, [x, y] if r.random() < .6 else [y, x])

    def resize(self, x):
        r = self.r
        f = [r.choice([1, 2, 3, 2, 1.5, .5]) for _ in 'hw']
        whole = all(e == int(e) for e in f)
        if r.random() < .5:
            a = dict(mode='nearest', coordinate_transformation_mode=r.choice(['asymmetric', 'half_pixel', 'half_pixel', 'pytorch_half_pixel']))
            if r.random() < .7:
                a['nearest_mode'] = r.choice(['floor', 'ceil', 'round_prefer_floor', 'round_prefer_ceil'])
        else:
            a = dict(mode='linear', coordinate_transformation_mode=r.choice(['asymmetric', 'half_pixel', 'pytorch_half_pixel'] + ['align_corners'] * 2 * whole))
        if a['coordinate_transformation_mode'] == 'pytorch_half_pixel' and not whole:
            f, whole = [r.choice([1, 2, 3]) for _ in 'hw'], True          # the reference mistakes results of one pixel
        if a['coordinate_transformation_mode'] == 'half_pixel' and r.random() < .5:
            del a['coordinate_transformation_mode']
        if r.random() < .3 and a['mode'] == 'linear' and a.get('coordinate_transformation_mode') != 'pytorch_half_pixel':
            sizes = [r.randint(1, 7) for _ in 'hw']
            if self.opset >= 18 and r.random() < .5:
                return self.op('Resize', [x, '', '', self.ints(*sizes)], axes=[2, 3], **a)
            return self.op('Resize', [x, '', '', self.ints(1, int(self.chan), *sizes)], **a)
        if self.opset >= 18 and r.random() < .3:
            return self.op('Resize', [x, '', self.const(np.array(f[::-1], F4))], axes=[3, 2], **a)
        return self.op('Resize', [x, '', self.const(np.array([1, 1] + f, F4))], **a)

    # images: (name, channels)
    def image(self, x, c):
        r = self.r
        self.chan = c
        t = r.random()
        if t < .2:
            k, s, d = [r.choice([1, 2, 3]) for _ in 'hw'], [r.choice([1, 1, 2]) for _ in 'hw'], [r.choice([1, 1, 2]) for _ in 'hw']
            g = c if r.random() < .2 else 1
            m = c * r.choice([1, 2]) if g > 1 else r.randint(1, 4)
            a = dict(kernel_shape=k, group=g)
            if r.random() < .7:
                a['strides'] = s
            u = r.random()
            if u < .3:
                a['dilations'] = d
            if u < .75:
                a['pads'] = r.choice([[1, 1, 1, 1], [1, 0, 1, 0], [0, 1, 0, 1], [2, 1, 2, 1], [r.randint(0, 2) for _ in range(4)]])
            elif u < .85:
                a['auto_pad'] = r.choice(['SAME_UPPER', 'SAME_LOWER', 'VALID'])
            ins = [x, self.weight(m, c // g, *k)]
            if r.random() < .5:
                ins.append(self.weight(m))
            return self.op('Conv', ins, **a), m
        if t < .3:
            o = r.choice(['MaxPool', 'AveragePool'])
            k = [r.choice([2, 3]) for _ in 'hw']
            a = dict(kernel_shape=k)
            if r.random() < .8:
                a['strides'] = [r.choice([1, 2, 2, 3]) for _ in 'hw']
            if r.random() < .6:
                p = [r.randint(0, 1) for _ in 'hw']
                a['pads'] = p + p if r.random() < .7 else [r.randint(0, 1) for _ in range(4)]
            if (o == 'MaxPool' or self.opset >= 19) and r.random() < .3:
                a['dilations'] = [r.choice([1, 2]) for _ in 'hw']
            if o == 'AveragePool' and r.random() < .4:
                a['count_include_pad'] = r.choice([0, 1])
            if r.random() < .2 and 'pads' not in a:
                # with wider steps the last window may hold nothing, which versions settle differently
                a.update(ceil_mode=1, strides=[r.randint(1, e) for e in k])
            return self.op(o, [x], **a), c
        if t < .36:
            y = self.unary(x)
            return self.op('Concat', r.choice([[x, y], [y, x], [y, x, y]]), axis=r.choice([2, 3, -1])), c
        if t < .41:
            y = self.unary(x)
            return self.op('Concat', [x, y], axis=1), 2 * c
        if t < .49:
            st = r.choice([1, 1, 2, 3, -1, -2])
            b, e = (r.randint(0, 2), r.choice([2**31 - 1, 2**62, -1])) if st > 0 else (-1, -2**62)
            return self.op('Slice', [x, self.ints(b), self.ints(e), self.ints(r.choice([2, 3, -1]))] + ([self.ints(st)] if st != 1 or r.random() < .5 else [])), c
        if t < .55:
            p = [0, 0, r.randint(0, 2), r.randint(0, 1), 0, 0, r.randint(0, 1), r.randint(0, 2)]
            mode = r.choice(['constant', 'constant', '', 'reflect', 'edge'])
            ins = [x, self.ints(*p)]
            if mode in ('constant', '') and r.random() < .5:
                ins.append(self.const(np.array(r.choice([1, 2, -1]), F4)))
            return self.op('Pad', ins, **({'mode': mode} if mode else {})), c
        if t < .6:
            return self.op('Transpose', [x], perm=[0, 1, 3, 2]), c
        if t < .64 and self.opset >= 14:
            return self.op('BatchNormalization', [x, self.weight(c), self.weight(c), self.weight(c), self.const(np.array([r.choice([1, 4]) for _ in range(c)], F4))], epsilon=0.), c
        if t < .68:
            return self.resize(x), c
        if t < .73:
            return self.op('Tile', [x, self.ints(1, 1, r.choice([1, 2]), r.choice([1, 2]))]), c
        if t < .8 and c > 1:
            s = [1, c - 1]
            a = dict(axis=1)
            y = self.op('Split', [x, self.ints(*s)], n=2, **a)
            return (y[0], 1) if r.random() < .5 else (y[1], c - 1)
        if t < .86:
            y = self.reduce(x, r.choice([[2], [3], [2, 3], [-1]]), 1)
            return self.op(r.choice(['Add', 'Sub', 'Mul']), [x, y] if r.random() < .6 else [y, x]), c
        if t < .875 and self.opset >= 17:
            y = self.op('Reshape', [self.op('GlobalAveragePool', [x]), self.ints(0, c, 1)])
            y = self.op('LayerNormalization', [y, self.weight(c, 1)] + ([self.weight(c, 1)] if r.random() < .5 else []), axis=r.choice([1, -2]), epsilon=1.)
            return self.op('Add', [x, self.op('Reshape', [y, self.ints(0, c, 1, 1)])]), c
        if t < .9:
            return self.binary(x, self.weight(*r.choice([(1, c, 1, 1), (c, 1, 1), (1,), ()]))), c
        if t < .95:
            return self.binary(x, self.unary(x)), c
        return self.unary(x), c

    def head(self, x, c):
        r = self.r
        t = r.choice(['gap', 'gap', 'reduce', 'all', 'expand', 'squeeze', 'topk', 'gather'] + ['flat', 'rows'] * 2 * self.one)
        if t == 'gap':
            y = self.op('Flatten', [self.op('GlobalAveragePool', [x])], **({} if r.random() < .6 else {'axis': r.choice([1, -3])}))
            tb = r.choice([0, 0, 1])
            ins = [y, self.weight(*((5, c) if tb else (c, 5)))]
            if r.random() < .7:
                ins.append(self.weight(*r.choice([(5,), (1, 5), (1,)])))
            a = {'transB': 1} if tb else {}
            if r.random() < .3:
                a['alpha'] = .5
            if r.random() < .3:
                a['beta'] = 2.
            return self.op('Gemm', ins, **a)
        if t == 'flat':
            return self.op('Flatten', [x], axis=r.choice([1, 1, 2, -3, -2])) if r.random() < .5 else self.op('Reshape', [x, self.ints(0, -1)])
        if t == 'rows':
            s = self.op('Shape', [x])
            h = self.op('Gather', [s, self.ints(0)])
            return self.op('Reshape', [x, self.op('Concat', [h, self.ints(c, -1)], axis=0)])
        if t == 'reduce':
            return self.reduce(x, r.choice([[1], [2], [3], [1, 2], [-2]]), r.choice([0, 1]))
        if t == 'all':
            return self.reduce(x, None, r.choice([1, 0]))
        if t == 'squeeze':
            y = self.op('GlobalAveragePool', [x])
            z = self.axes('Squeeze', y, [2, 3], since=13)
            return self.axes('Unsqueeze', z, [r.choice([0, 1, 2])], since=13)
        if t == 'topk':
            y = self.op('TopK', [x, self.ints(2)], n=2, axis=r.choice([2, 3, -1]), **({'largest': 0} if r.random() < .3 else {}))
            return y[0]
        if t == 'gather':
            return self.op('Gather', [x, self.const(np.array(r.choice([[0], [0, 1], [[0, 1], [1, 0]], [1, 1, 0], 1]), np.int64))], axis=r.choice([2, 3]))
        y = self.op('GlobalAveragePool', [x])
        return self.op('Expand', [y, self.op('Shape', [x])])

    def tokens(self, x, w):
        """x: [N, S, w]."""
        r = self.r
        t = r.random()
        if t < .15:
            m = r.choice([4, 6])
            return self.op('MatMul', [x, self.weight(w, m)]), m
        if t < .3:
            y = self.op('Transpose', [x], perm=[0, 2, 1])
            z = self.op('MatMul', [x, y])                # N, S, S
            return self.op('MatMul', [self.op('Softmax', [z], axis=-1), x]), w
        if t < .42:
            s = self.op('Shape', [x])
            n, l = (self.op('Gather', [s, self.ints(i)]) for i in (0, 1))
            y = self.op('Reshape', [x, self.op('Concat', [n, l, self.ints(2, -1)], axis=0)])
            y = self.op('Transpose', [y], perm=[0, 2, 1, 3])
            y = self.unary(y)
            y = self.op('Transpose', [y], perm=[0, 2, 1, 3])
            return self.op('Reshape', [y, self.ints(0, 0, w)]), w
        if t < .5:
            return self.op('Concat', [x, self.op('Slice', [x, self.ints(0), self.ints(r.randint(1, 3)), self.ints(1)])], axis=1), w
        if t < .58:
            return self.op('Slice', [x, self.ints(r.randint(0, 2)), self.ints(2**31 - 1), self.ints(1), self.ints(r.choice([1, 2]))]), w
        if t < .7:
            m = self.reduce(x, [-1], 1)
            d = self.op('Sub', [x, m])
            return self.op('Mul', [d, self.weight(w)]), w
        if t < .75:
            u = r.random()
            if self.opset >= 17 and u < .5:
                ins = [x, self.weight(w)] + ([self.weight(w)] if r.random() < .6 else [''] * r.randint(0, 1))
                return self.op('LayerNormalization', ins, epsilon=r.choice([.5, 1., 3.]), **r.choice([{}, {'axis': -1}, {'axis': 2}])), w
            if self.opset >= 20 and u < .8:
                return self.op('Gelu', [x], **r.choice([{}, {'approximate': 'tanh'}, {'approximate': 'none'}])), w
            y = self.op('Slice', [x, self.ints(0), self.ints(1), self.ints(1)])      # N, 1, w
            y = self.op('Slice', [y, self.ints(0), self.ints(1), self.ints(0)])      # 1, 1, w
            k = r.randint(1, w)
            g = self.op('GatherElements', [y, self.const(np.array([r.randint(-w, w - 1) for _ in range(k)], np.int64).reshape(1, 1, k))], axis=r.choice([2, -1]))
            return self.op('Add', [x, self.op('ReduceSum', [g, self.ints(2)], keepdims=1)]), w
        if t < .78:
            y = self.op('Split', [x], n=2, axis=2) if w % 2 == 0 and self.opset < 18 else self.op('Split', [x, self.ints(w // 2, w - w // 2)], n=2, axis=-1)
            return self.op('Concat', [y[1], y[0]], axis=2), w
        if t < .9:
            return self.binary(x, self.unary(x) if r.random() < .6 else self.weight(w)), w
        return self.unary(x), w

    def model(self, ins, outs, ref=False):
        if ref:
            # the reference evaluator confuses the sides MaxPool pads
            low, nodes = helper.make_node('Constant', [], ['lowest'], value=numpy_helper.from_array(np.array(-3e38, F4))), []
            for k, (o, i, t, a) in enumerate(self.nodes):
                a = dict(a)
                if o == 'MaxPool' and 'pads' in a:
                    p = a.pop('pads')
                    nodes += [low] * (low not in nodes)
                    nodes.append(helper.make_node('Constant', [], [f'by{k}'], value=numpy_helper.from_array(np.array([0, 0, *p[:2], 0, 0, *p[2:]], np.int64))))
                    nodes.append(helper.make_node('Pad', [i[0], f'by{k}', 'lowest'], [f'padded{k}']))
                    i = [f'padded{k}']
                nodes.append(helper.make_node(o, i, t, **a))
            g = helper.make_graph(nodes, 'g', ins, [helper.make_tensor_value_info(t, 1, None) for _, _, o, _ in self.nodes for t in o], self.inits)
            return helper.make_model(g, opset_imports=[helper.make_opsetid('', self.opset)], ir_version=8)
        nodes = [helper.make_node(o, i, t, name=f'n{k}', **a) for k, (o, i, t, a) in enumerate(self.nodes)]
        g = helper.make_graph(nodes, 'g', ins, [helper.make_tensor_value_info(o, 1, None) for o in outs], self.inits)
        return helper.make_model(g, opset_imports=[helper.make_opsetid('', self.opset)], ir_version=8)

    def spec(self):
        return [dict(n=f'n{k}', op=o, a=od.enc_attr(a), i=i, o=t) for k, (o, i, t, a) in enumerate(self.nodes)]


def build(r):
    """Model, input description, ranges."""
    m = Net(r)
    var, desc, ins = {}, {}, []

    def inp(n, d, tp=1):
        desc[n] = list(d) if r.random() < .5 else tuple(d)
        ins.append(helper.make_tensor_value_info(n, tp, list(d)))
        return n
    if r.random() < .6:
        c = r.choice([1, 2, 3])
        h, w = r.choice([('H', 'W'), ('H', 'W'), ('H', 'H'), ('H', 4)])
        var['N'] = (1, r.choice([1, 2]))
        for v in (h, w):
            if isinstance(v, str):
                var[v] = (r.choice([3, 4]), r.choice([5, 6]))
        x = inp('x', ['N', c, h, w])
        m.one = w == 4
        parts = [(x, c)]
        if r.random() < .3:                            # a second picture, or one value per channel
            y = inp('y', r.choice([['N', c, h, w], ['N', c, 1, 1], [1, c, 1, 1], ['N', 1, h, w]]))
            parts.append((m.binary(x, y) if r.random() < .7 else m.binary(y, x), c))
        for _ in range(r.randint(1, 5)):
            y, c = m.image(*r.choice(parts[-2:]))
            parts.append((y, c))
        for _ in range(r.randint(0, 2)):
            m.head(*r.choice(parts[-3:]))
    else:
        var['N'] = (1, r.choice([1, 2]))
        var['S'] = (r.choice([2, 3]), r.choice([4, 6]))
        w = 4
        if r.random() < .4:
            inp('ids', ['N', 'S'], TensorProto.INT64)
            x = m.op('Gather', [m.weight(6, 4), 'ids'])
            m.lim['ids'] = 6
        else:
            x = m.op('Relu', [inp('x', ['N', 'S', 4])])
        if r.random() < .35:                            # another input, mostly with a length of its own
            cat = r.random() < .4
            if not cat:
                var['P'] = (1, r.choice([2, 4]))
            inp('past', ['N', 'S' if cat else 'P', w])
            if cat:
                x = m.op('Concat', ['past', x], axis=1)
            else:
                z = m.op('MatMul', [x, m.op('Transpose', ['past'], perm=[0, 2, 1])])
                x = m.op('MatMul', [z, 'past'])
        for _ in range(r.randint(1, 5)):
            x, w = m.tokens(x, w)
    used = {i for _, i, _, _ in m.nodes for i in i}
    outs = [o for _, _, t, _ in m.nodes for o in t if o not in used]
    inner = [o for _, _, t, _ in m.nodes for o in t if o in used]
    bools = {t[0] for o, _, t, _ in m.nodes if o in ('Greater', 'Less', 'Equal', 'Shape')}
    if inner and r.random() < .3:
        outs.append(r.choice(inner))
    outs = [o for o in outs if o not in bools]
    return m, ins, outs, desc, var


def feed(m, r, desc, asg):
    out = {}
    for n, d in desc.items():
        s = [asg[v] if isinstance(v, str) else v for v in d]
        if n in m.lim:
            out[n] = np.array([r.randrange(m.lim[n]) for _ in range(int(np.prod(s)))], np.int64).reshape(s)
        else:
            out[n] = np.array([r.randint(-3, 3) for _ in range(int(np.prod(s)))], F4).reshape(s)
    return out


def fixed(x):
    x = float(x)
    return 1000000000 if not np.isfinite(x) else int(np.floor(x * 10000)) if abs(x) <= 90000 else 2000000000


def span(pool, t):
    """Where a view lies in the pool: [first byte, end), -1 if elsewhere."""
    a, p = t.a, pool.a
    if a.size == 0:
        return None
    lo, hi = np.lib.array_utils.byte_bounds(a)
    b, e = np.lib.array_utils.byte_bounds(p)
    return (int(lo - b), int(hi - b)) if lo < e and hi > b else None


class Watch:
    """Notes the views every node is given."""

    def __init__(self):
        self.ev = None
        self.get = kernels.KernelRegistry.get

    def __enter__(self):
        w = self

        def get(op):
            k = w.get(op)
            if k is None or w.ev is None:
                return k

            class Seen:
                op_type = op

                @staticmethod
                def run(i, o, a):
                    w.ev.append((op, list(i), list(o)))
                    return k.run(i, o, a)
            return Seen
        kernels.KernelRegistry.get = get
        return self

    def __exit__(self, *a):
        kernels.KernelRegistry.get = self.get


def quiet(f):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return call(f)


def pieces(gi, watch, ins):
    """The pool bytes of one call: the inputs' copies, what each node reads and writes, the outputs."""
    pool, blocks, width = gi.pool.pool, dict(gi.pool.items()), torch.tensor([], dtype=gi.dtype).element_size()
    first = [dict(n=n, lo=int(blocks[n][0]), hi=int(blocks[n][0]) + x.size * width) for n, x in ins.items() if n in blocks]
    ev = [dict(r=[], w=first)]
    names = gi.node_names
    if len(names) != len(watch.ev):
        return []
    for n, (op, i, o) in zip(names, watch.ev):
        node = gi.compute_graph.nodemap[n]
        if len(node.input) != len(i) or len(node.output) != len(o):
            return []

        def spans(ts, ns):
            out = []
            for t, nm in zip(ts, ns):
                at = None if t is None or nm not in blocks else span(pool, t)
                if at is not None:
                    out.append(dict(n=nm, lo=at[0], hi=at[1]))
            return out
        ev.append(dict(r=spans(i, node.input), w=spans(o, node.output)))
    return ev


def enc_t(n, x, limit=600):
    h, v = od.values(x, limit)
    return dict(n=n, s=list(x.shape), d=od.dtype_name(x.dtype), has=h, v=v)
