"""Random whole models with shape arithmetic, built node by node; every node is executed by onnx.reference for
several assignments of the model's inputs, so that a finished model is valid for all of them."""
import warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper
from onnx.reference import ReferenceEvaluator
import opsdrv as od

LIMIT = 400


def eval_node(op, ins, attrs, nout, opset):
    """Execute one node; None where the operator does not admit the operands."""
    if op in ('MaxPool', 'AveragePool', 'Conv'):
        # the reference evaluator accepts windows larger than the padded input
        ks = attrs.get('kernel_shape') or list(ins[1].shape[2:])
        n, dl, p = len(ks), attrs.get('dilations') or [1] * len(ks), attrs.get('pads') or [0] * 2 * len(ks)
        if any((ks[j] - 1) * dl[j] + 1 > ins[0].shape[2 + j] + p[j] + p[n + j] for j in range(n)):
            return None
        if op == 'MaxPool' and (p[:n] != p[n:] or any(p) and attrs.get('ceil_mode') or str(attrs.get('auto_pad', '')).startswith('SAME')):
            return None                     # and mistakes uneven padding
    if op == 'BatchNormalization' and opset < 14:
        return None                         # and averages the statistics of inference mode
    if op == 'Shape' and min(attrs.get('start', 0), attrs.get('end', 0)) < -ins[0].ndim:
        return None                         # and does not clamp the limits of Shape
    if op == 'MatMulInteger' and len(ins) > 2 and ins[2] is not None and ins[2].size > 1:
        return None                         # and takes zero points of rows for those of columns
    if op == 'Unsqueeze':
        ax = attrs.get('axes') if len(ins) < 2 or ins[1] is None else np.asarray(ins[1]).reshape(-1).tolist()
        rank = ins[0].ndim + len(ax or [])
        if ax and [a % rank for a in ax] != sorted(a % rank for a in ax):
            return None                     # and inserts axes in the order given
        if ax and opset < 13 and any(a < 0 for a in ax):
            return None                     # counting negative ones from a partial rank
    if op == 'Slice' and len(ins) > 4 and ins[4] is not None:
        ax = range(ins[0].ndim) if ins[3] is None else ins[3]
        if any(p < 0 and b < -ins[0].shape[a] for a, b, p in zip(ax, ins[1], ins[4])):
            return None                     # and does not clamp a start before the first element
    names, feed = [], {}
    for k, x in enumerate(ins):
        names.append('' if x is None else f'x{k}')
        if x is not None:
            feed[f'x{k}'] = x
    outs = [f'y{k}' for k in range(nout)]
    node = helper.make_node(op, names, outs, **od.onnx_attrs(attrs))
    g = helper.make_graph([node], 'g', [helper.make_tensor_value_info(n, od.D2TP[od.dtype_name(x.dtype)], list(x.shape)) for n, x in feed.items()],
                          [helper.make_empty_tensor_value_info(o) for o in outs])
    for vi in g.output:
        vi.type.tensor_type.elem_type = onnx.TensorProto.FLOAT
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = ReferenceEvaluator(helper.make_model(g, opset_imports=[helper.make_opsetid('', opset)])).run(None, feed)
    except Exception:
        return None
    r = [np.asarray(x) for x in r]
    for x in r:
        if x.size > LIMIT or od.dtype_name(x.dtype)[0] == '?' or any(d > 40 for d in x.shape):
            return None
        if x.dtype.kind == 'f' and x.size and not np.all(np.isfinite(x)):
            return None
        if x.dtype.kind in 'iu' and x.size and np.abs(x.astype(np.int64)).max() > 100000:
            return None
    return r


class ModelGen:
    def __init__(self, r, opset=None, assigns=3):
        self.r = r
        self.g = od.Gen(r)
        self.opset = opset or r.choice([13, 14, 17, 18, 21])
        self.na = assigns
        self._ends = None
        self.val = {}            # tensor -> values, one per assignment
        self.const = set()       # tensors that depend on no input
        self.inputs, self.inits, self.nodes = [], [], []
        self.symbolic = {}
        self.rejected = 0

    # -------------------------------------------------------------- parts
    def name(self, p='t'):
        return f'{p}{len(self.val) + len(self.nodes) * 0}'

    def input(self, dims, d='f32'):
        """dims: ints or symbol names; a symbol has one value per assignment."""
        n = f'in{len(self.inputs)}'
        vals = []
        for a in range(self.na):
            s = [self.symbolic[x][a] if isinstance(x, str) else x for x in dims]
            vals.append(self.g.arr(s, d) if d == 'f32' else np.array([self.r.randint(1, 4) for _ in range(int(np.prod(s)))], od.D2NP[d]).reshape(s))
        self.val[n] = vals
        self.inputs.append((n, d, list(dims)))
        return n

    def init(self, arr):
        arr = np.asarray(arr)
        for n, x in self.inits:
            if x.dtype == arr.dtype and x.shape == arr.shape and np.array_equal(x, arr) and self.r.random() < .5:
                return n                    # shared
        n = f'w{len(self.inits)}'
        self.inits.append((n, arr))
        self.val[n] = [arr] * self.na
        self.const.add(n)
        return n

    def k(self, v, d='i64'):
        """A small constant, as initializer or Constant node."""
        arr = np.array(v, dtype=od.D2NP[d])
        if self.r.random() < .7:
            return self.init(arr)
        n = f'c{len(self.val)}'
        a = {'value': arr}
        if d in ('i64', 'f32') and arr.ndim <= 1 and arr.size and self.r.random() < .4:
            a = {'value_' + ('int' if d == 'i64' else 'float') + 's' * arr.ndim: arr.tolist()}
        self.nodes.append(('Constant', [], [n], a))
        self.val[n] = [arr] * self.na
        self.const.add(n)
        return n

    def emit(self, op, ins, attrs=None, n=1, opt=()):
        """Append a node if it is valid under every assignment; returns its output name(s) or None."""
        if any(i is None for i in ins):
            return None
        attrs = dict(attrs or {})
        res = []
        for a in range(self.na):
            x = eval_node(op, [None if i == '' else self.val[i][a] for i in ins], attrs, n, self.opset)
            if x is None:
                self.rejected += 1
                return None
            res.append(x)
        if any(res[0][k].dtype != res[a][k].dtype or res[0][k].ndim != res[a][k].ndim for a in range(self.na) for k in range(n)):
            return None
        outs = [f't{len(self.val) + k}' for k in range(n)]
        self.nodes.append((op, list(ins), outs, attrs))
        for k, o in enumerate(outs):
            self.val[o] = [res[a][k] for a in range(self.na)]
        if all(i == '' or i in self.const for i in ins):
            self.const.update(outs)
        return outs[0] if n == 1 else outs

    def rank(self, t):
        return self.val[t][0].ndim

    def dt(self, t):
        return od.dtype_name(self.val[t][0].dtype)

    def datas(self, rank=None):
        return [t for t in self.val if self.dt(t) == 'f32' and t not in self.const and (rank is None and self.rank(t) > 0 or self.rank(t) == rank)
                and all(v.size for v in self.val[t])]

    def ints(self, rank):
        return [t for t in self.val if self.dt(t) == 'i64' and self.rank(t) == rank and t not in self.const]

    def pick(self, xs):
        return self.r.choice(xs) if xs else None

    # ------------------------------------------------- shape arithmetic
    def shape_of(self, t=None):
        t = t or self.pick(self.datas())
        if t is None:
            return None
        a = {}
        if self.opset >= 15 and self.r.random() < .15 and self.rank(t) > 1:
            a = {'start': self.r.randint(0, 1)}
            if self.r.random() < .5:
                a['end'] = self.rank(t)
        return self.emit('Shape', [t], a)

    def unsq(self, x, axes=(0,)):
        if x is None:
            return None
        return self.emit('Unsqueeze', [x, self.k(list(axes))])

    def dim(self, t=None, axis=None):
        """A rank-0 integer that depends on a shape."""
        r = self.r
        t = t or self.pick(self.datas())
        if t is None:
            return None
        axis = r.randrange(self.rank(t)) if axis is None else axis
        s = self.emit('Shape', [t])
        if s is None:
            return None
        how = r.random()
        idx = axis if r.random() < .7 else axis - self.rank(t)
        if how < .6:
            return self.emit('Gather', [s, self.k(idx)], {'axis': 0} if r.random() < .5 else {})
        if how < .8:
            x = self.emit('Slice', [s, self.k([axis]), self.k([axis + 1])] + ([self.k([0])] if r.random() < .5 else []))
            return self.emit('Squeeze', [x, self.k([0])] if r.random() < .7 else [x]) if x else None
        x = self.emit('Gather', [s, self.k([idx])])
        return self.emit('Squeeze', [x, self.k([0])]) if x else None

    def scal(self, x=None, depth=2):
        """Arithmetic on a scalar shape value."""
        r = self.r
        if x is None:
            x = self.pick(self.ints(0)) if r.random() < .3 else None
            x = x or self.dim()
        for _ in range(r.randint(0, depth)):
            if x is None:
                return None
            o = r.random()
            v = self.val[x]
            if o < .18:
                y = self.emit('Add', [x, self.k(r.choice([1, 2, -1]))])
            elif o < .3:
                y = self.emit('Sub', [x, self.k(1)] if r.random() < .7 else [self.k(int(max(v).item()) + 2), x])
            elif o < .45:
                y = self.emit('Mul', [x, self.k(2)])
            elif o < .6:
                y = self.emit('Div', [x, self.k(2)]) if all(e >= 0 for e in v) else None
            elif o < .66:
                y = self.emit('Mod', [x, self.k(r.choice([2, 3]))])
            elif o < .72:
                z = self.dim()
                y = self.emit(r.choice(['Add', 'Min', 'Max']), [x, z]) if z else None
            elif o < .82:
                f = self.emit('Cast', [x], {'to': onnx.TensorProto.FLOAT})
                m = self.emit(r.choice(['Mul', 'Div']), [f, self.k(r.choice([.5, 2., 1.5, 4.]), 'f32')]) if f else None
                m = self.emit(r.choice(['Floor', 'Ceil']), [m]) if m else None
                y = self.emit('Cast', [m], {'to': onnx.TensorProto.INT64}) if m else None
            elif o < .9:
                z = self.dim()
                c = self.emit(r.choice(['Equal', 'Less', 'Greater']), [x, self.k(int(self.r.choice(v).item()))])
                y = self.emit('Where', [c, x, z]) if c and z else None
            elif o < .93:
                y = self.emit('Neg', [x])
                y = self.emit(r.choice(['Abs', 'Neg']), [y]) if y else None
            elif o < .96:
                s = self.shape_of()
                if s and r.random() < .5:
                    s = self.emit('Slice', [s, self.k([r.choice([0, 1, -2])]), self.k([2 ** 31])])
                y = self.emit('ReduceProd', [s], {'keepdims': 0}) if s else None
                y = self.emit('Min', [y, self.k(7)]) if y else None
            else:
                y = self.emit(r.choice(['Identity', 'Relu'] if self.opset >= 14 else ['Identity']), [x])
            x = y or x
        return x

    def vec(self, parts):
        """1-D shape tensor from scalars (names), ints and 1-D names."""
        r = self.r
        if all(isinstance(p, int) for p in parts):
            return self.k(list(parts))
        ins = []
        for p in parts:
            if isinstance(p, int):
                ins.append(self.k([p]))
            elif p is None:
                return None
            elif self.rank(p) == 0:
                ins.append(self.unsq(p) if r.random() < .85 else self.emit('Reshape', [p, self.k([1])]))
            else:
                ins.append(p)
        if any(i is None for i in ins):
            return None
        if len(ins) == 1 and r.random() < .7:
            return ins[0]
        return self.emit('Concat', ins, {'axis': 0 if r.random() < .7 else -1})

    # --------------------------------------------------------- consumers
    def sink(self):
        r = self.r
        x = self.pick(self.datas())
        if x is None:
            return None
        n = self.rank(x)
        kind = r.choice(['reshape', 'reshape', 'expand', 'slice', 'slice', 'resize', 'const', 'tile', 'range', 'pad', 'topk', 'split', 'onehot',
                         'squeeze', 'reduce', 'reshape2', 'torchexpand', 'prodflat', 'arangemask', 'padlist', 'gatherdims'])
        if kind == 'reshape':
            keep = r.randrange(n + 1)
            parts = [self.dim(x, j) if r.random() < .8 else 0 for j in range(keep)] + [-1]
            t = r.random()
            if t < .3:
                parts = parts[::-1] if keep <= 1 else parts
            elif t < .45:
                parts = parts + [1]
            return self.emit('Reshape', [x, self.vec(parts)], {'allowzero': 0} if r.random() < .2 and self.opset >= 14 else {})
        if kind == 'reshape2':
            s = self.emit('Shape', [x])
            y = self.emit('Transpose', [x]) if r.random() < .5 else self.emit('Flatten', [x], {'axis': r.randint(0, n)})
            return self.emit('Reshape', [y, s])
        if kind == 'expand':
            y = self.pick(self.datas())
            s = self.shape_of(y) if r.random() < .5 else self.vec([self.scal() if r.random() < .6 else 1 for _ in range(r.randint(1, 3))])
            src = x if r.random() < .5 else self.k([[r.randint(-3, 3) / 2]], 'f32')
            return self.emit('Expand', [src, s])
        if kind == 'slice':
            ax = r.randrange(n)
            lo = self.k([0]) if r.random() < .5 else self.vec([self.scal()])
            hi = self.vec([self.scal()]) if r.random() < .7 else self.k([2 ** 31 if r.random() < .5 else -1])
            ins = [x, lo, hi, self.k([ax if r.random() < .7 else ax - n])]
            if r.random() < .4:
                ins.append(self.k([r.choice([1, 2, -1])]))
            return self.emit('Slice', ins)
        if kind == 'resize':
            if n != 4:
                x = self.pick(self.datas(4))
                if x is None:
                    return None
            if r.random() < .5:
                sizes = self.emit('Concat', [self.emit('Slice', [self.emit('Shape', [x]), self.k([0]), self.k([2]), self.k([0])]),
                                             self.vec([self.scal(), self.scal()])], {'axis': 0})
                return self.emit('Resize', [x, '', '', sizes], {'mode': r.choice(['nearest', 'linear'])})
            sc = self.k([1., 1., r.choice([1., 2., 1.5]), r.choice([1., 2., .5])], 'f32')
            return self.emit('Resize', [x, '', sc], {'mode': r.choice(['nearest', 'linear'])})
        if kind == 'const':
            s = self.shape_of() if r.random() < .4 else self.vec([self.scal() if r.random() < .7 else r.randint(1, 3) for _ in range(r.randint(1, 3))])
            return self.emit('ConstantOfShape', [s], r.choice([{}, {'value': np.array([1.5], np.float32)}, {'value': np.array([1], np.int64)}]))
        if kind == 'tile':
            return self.emit('Tile', [x, self.vec([self.scal() if r.random() < .4 else r.randint(1, 2) for _ in range(n)])])
        if kind == 'range':
            y = self.emit('Range', [self.k(0) if r.random() < .6 else self.scal(), self.scal(), self.k(r.choice([1, 1, 2]))])
            if y and r.random() < .6:
                return self.emit('Cast', [y], {'to': onnx.TensorProto.FLOAT})
            return y
        if kind == 'pad':
            p = [0] * (2 * n)
            for _ in range(r.randint(1, 2)):
                p[r.randrange(2 * n)] = self.scal() if r.random() < .6 else r.randint(0, 2)
            ins = [x, self.vec(p)]
            if r.random() < .3:
                ins.append(self.k(r.randint(-2, 2) / 2, 'f32'))
            return self.emit('Pad', ins)
        if kind == 'topk':
            o = self.emit('TopK', [x, self.vec([self.scal()])], {'axis': r.randrange(n)}, n=2)
            return o[0] if o else None
        if kind == 'split':
            ax = r.randrange(n)
            d = self.dim(x, ax)
            h = self.emit('Div', [d, self.k(2)]) if d else None
            m = self.emit('Sub', [d, h]) if h else None
            if m is None:
                return None
            o = self.emit('Split', [x, self.vec([h, m])], {'axis': ax}, n=2)
            return o[1] if o else None
        if kind == 'onehot':
            idx = self.emit('ArgMax', [x], {'axis': r.randrange(n), 'keepdims': r.randint(0, 1)})
            return self.emit('OneHot', [idx, self.vec([self.scal()]) if r.random() < .6 else self.scal(), self.k([0., 1.], 'f32')], {'axis': r.choice([-1, 0])})
        if kind == 'torchexpand':            # where(shape == -1, ones, shape), as exporters write expand()
            want = self.vec([self.dim(x, j) if r.random() < .6 else -1 for j in range(n)])
            if want is None:
                return None
            ln = self.emit('ConstantOfShape', [self.k([n])], {'value': np.array([1], np.int64)})
            m1 = self.emit('Mul', [ln, self.k(-1)]) if ln else None
            eq = self.emit('Equal', [want, m1]) if m1 else None
            return self.emit('Expand', [x, self.emit('Where', [eq, ln, want])]) if eq else None
        if kind == 'prodflat':               # reshape to the product of some dimensions
            s = self.emit('Shape', [x])
            j = r.randint(1, n)
            p = self.emit('ReduceProd', [self.emit('Slice', [s, self.k([0]), self.k([j]), self.k([0])])], {'keepdims': 1})
            return self.emit('Reshape', [x, self.emit('Concat', [p, self.k([-1])], {'axis': 0})]) if p else None
        if kind == 'arangemask':             # positions compared with positions
            d = self.scal(depth=1)
            a = self.emit('Range', [self.k(0), d, self.k(1)]) if d else None
            b = self.emit('Unsqueeze', [a, self.k([1])]) if a else None
            c = self.emit(r.choice(['Less', 'Greater', 'LessOrEqual']), [a, b]) if b else None
            return self.emit('Cast', [c], {'to': onnx.TensorProto.FLOAT}) if c else None
        if kind == 'padlist':                # torch's pad(): pairs reversed, transposed, flattened
            pads = self.vec([self.scal(depth=1) if r.random() < .5 else r.randint(0, 2) for _ in range(4)])
            z = self.vec([0] * (2 * n - 4)) if n > 2 else None
            if pads is None or n < 2:
                return None
            p = self.emit('Concat', [pads, z], {'axis': 0}) if z else pads
            p = self.emit('Reshape', [p, self.k([-1, 2])])
            p = self.emit('Slice', [p, self.k([-1]), self.k([-2 ** 31]), self.k([0]), self.k([-1])]) if p else None
            p = self.emit('Transpose', [p], {'perm': [1, 0]}) if p else None
            p = self.emit('Reshape', [p, self.k([-1])]) if p else None
            return self.emit('Pad', [x, p], {'mode': 'constant'}) if p else None
        if kind == 'gatherdims':             # several dimensions at once, permuted
            s = self.emit('Shape', [x])
            p = self.g.perm_of(n)
            y = self.emit('Transpose', [x], {'perm': p}) if r.random() < .5 else x
            return self.emit('Reshape', [y, self.emit('Gather', [s, self.k(p)], {'axis': 0})]) if s else None
        if kind == 'squeeze':
            y = self.unsq(x, [r.randint(0, n)])
            if y and r.random() < .6:
                ax = [j for j in range(self.rank(y)) if all(v.shape[j] == 1 for v in self.val[y])]
                return self.emit('Squeeze', [y, self.k([self.pick(ax)])])
            return y
        if kind == 'reduce':
            op = r.choice(['ReduceSum', 'ReduceMean', 'ReduceMax'] if self.opset >= 18 else ['ReduceSum'])
            return self.emit(op, [x, self.k([r.randint(-n, n - 1)])], {'keepdims': r.randint(0, 1)})

    # --------------------------------------------------------- data flow
    def data(self):
        r = self.r
        x = self.pick(self.datas())
        if x is None:
            return None
        n = self.rank(x)
        kind = r.choice(['unary', 'binary', 'weight', 'conv', 'pool', 'gap', 'matmul', 'transpose', 'concat', 'softmax', 'ln', 'mean', 'gather', 'flatten',
                         'gemm', 'bn', 'div'])
        shp = [v.shape for v in self.val[x]]
        if kind == 'unary':
            return self.emit(r.choice(['Relu', 'Neg', 'Abs', 'Floor', 'Identity', 'Sigmoid', 'Tanh', 'LeakyRelu', 'Erf']), [x])
        if kind == 'binary':
            y = self.pick(self.datas())
            return self.emit(r.choice(['Add', 'Mul', 'Sub', 'Max']), [x, y])
        if kind == 'weight':
            s = [shp[0][-1]] if r.random() < .5 else []
            return self.emit(r.choice(['Add', 'Mul']), [x, self.init(self.g.arr(s, lo=-4, hi=4, q=2))])
        if kind == 'div':
            return self.emit('Div', [x, self.k(2., 'f32')])
        if kind in ('conv', 'pool', 'gap', 'bn') and (n != 4):
            x = self.pick(self.datas(4))
            if x is None:
                return None
            shp = [v.shape for v in self.val[x]]
        if kind == 'conv':
            c = shp[0][1]
            if any(s[1] != c for s in shp) or c == 0:
                return None
            k = r.choice([1, 2, 3])
            grp = c if r.random() < .3 else 1
            m = c if grp > 1 else r.randint(1, 3)
            ins = [x, self.init(self.g.arr([m, c // grp, k, k], lo=-2, hi=2, q=1))]
            if r.random() < .5:
                ins.append(self.init(self.g.arr([m], lo=-2, hi=2, q=1)))
            a = dict(kernel_shape=[k, k], group=grp, pads=[k // 2, k // 2, k // 2, k // 2], strides=[r.choice([1, 1, 2])] * 2, dilations=[1, 1])
            return self.emit('Conv', ins, a)
        if kind == 'pool':
            return self.emit(r.choice(['MaxPool', 'AveragePool']), [x], dict(kernel_shape=[2, 2], strides=[r.choice([1, 2])] * 2, pads=[0, 0, 1, 1] if r.random() < .3 else [0, 0, 0, 0]))
        if kind == 'gap':
            return self.emit('GlobalAveragePool', [x])
        if kind == 'bn':
            c = shp[0][1]
            if any(s[1] != c for s in shp):
                return None
            w = [self.init(self.g.arr([c], lo=1, hi=4, q=1)) for _ in range(4)]
            return self.emit('BatchNormalization', [x] + w)
        if kind in ('matmul', 'gemm'):
            d = shp[0][-1]
            if any(s[-1] != d for s in shp) or n < 2:
                return None
            w = self.init(self.g.arr([d, r.randint(1, 3)], lo=-2, hi=2, q=1))
            if kind == 'gemm':
                return self.emit('Gemm', [x, w])
            return self.emit('MatMul', [x, w])
        if kind == 'transpose':
            return self.emit('Transpose', [x], {'perm': self.g.perm_of(n)})
        if kind == 'concat':
            y = self.pick(self.datas(n))
            return self.emit('Concat', [x, y], {'axis': r.randrange(n)})
        if kind == 'softmax':
            return self.emit('Softmax', [x], {'axis': r.randint(-n, n - 1)})
        if kind == 'ln':
            d = shp[0][-1]
            if any(s[-1] != d for s in shp) or self.opset < 17:
                return None
            return self.emit('LayerNormalization', [x, self.init(self.g.arr([d], q=4)), self.init(self.g.arr([d], q=4))])
        if kind == 'mean':
            return self.emit('ReduceMax' if self.opset < 18 else 'Relu', [x])
        if kind == 'gather':
            return self.emit('Gather', [x, self.k([0]) if r.random() < .5 else self.k(0)], {'axis': r.randrange(n)})
        if kind == 'flatten':
            return self.emit('Flatten', [x], {'axis': r.randint(0, n)})

    # ------------------------------------------------------------- whole
    through = None

    def build(self, nodes=10, sinks=2, datas=4, ninputs=None):
        r = self.r
        for s in 'NHW':
            self.symbolic[s] = [r.randint(1, 4) if s == 'N' else r.randint(2, 7) for _ in range(self.na)]
        for k in range(ninputs or r.choice([1, 1, 2])):
            self.input(r.choice([['N', 2, 'H', 'W'], ['N', 3, 'H', 'W'], ['N', 'H', 4], ['N', 6], [2, 'H'], ['N', 1, 4, 4]]))
        if r.random() < .25:
            self.input([], 'i64')
        if r.random() < .15:
            self.input([2], 'i64')
        made = tried = 0
        while (made < sinks + datas) and tried < 60 and len(self.nodes) < 40:
            tried += 1
            made += (self.sink() if r.random() < sinks / (sinks + datas) else self.data()) is not None
        return self

    def used(self):
        return {i for _, ins, _, _ in self.nodes for i in ins}

    def prune(self):
        """Drop what feeds nothing but arithmetic that was given up (keep integer and data results as outputs)."""
        while True:
            used = self.used()
            drop = [nd for nd in self.nodes if nd[0] in ('Constant',) and not set(nd[2]) & used]
            if not drop:
                break
            self.nodes = [nd for nd in self.nodes if nd not in drop]
        used = self.used()
        self.inits = [(n, x) for n, x in self.inits if n in used]

    def nn(self, k, op):
        """Name of the k-th node."""
        return f'n{k}_{op}_'

    def ends(self, free, used):
        """The graph outputs: at times not everything left over, or a tensor which is used as well."""
        r = self.r
        if self._ends is None or set(self._ends) & set(free) == set() or any(o not in free + used for o in self._ends):
            outs = list(free)
            if len(outs) > 1 and r.random() < .3:
                outs = r.sample(outs, r.randint(1, len(outs) - 1))
            if used and r.random() < .25:
                outs.insert(r.randrange(len(outs) + 1), r.choice(used))
            self._ends = outs
        return list(self._ends)

    listed = False              # initializers are listed among the graph inputs too

    def model(self, declare='sym', r=None):
        """declare: 'sym' (symbols), 'unknown' (dims without value), 'fixed' (assignment 0)."""
        self.prune()
        used = self.used()
        prod = [o for _, _, outs, _ in self.nodes for o in outs]
        self.outputs = self.ends([o for o in prod if o not in used], [o for o in prod if o in used])
        if self.through is not None:            # an input handed on as a result
            k = self.through % len(self.inputs)
            self.outputs = [o for o in self.outputs if o != self.inputs[k][0]]
            self.outputs.insert(self.through % (len(self.outputs) + 1), self.inputs[k][0])
        ins = []
        for n, d, dims in self.inputs:
            ds = [x if not isinstance(x, str) else x if declare == 'sym' else None if declare == 'unknown' else -1 if declare == 'negative'
                  else self.symbolic[x][0] for x in dims]
            ins.append(helper.make_tensor_value_info(n, od.D2TP[d], None if declare == 'norank' else ds))
        if self.listed:
            ins += [helper.make_tensor_value_info(n, od.D2TP[self.dt(n)], list(x.shape)) for n, x in self.inits]
        nodes = [helper.make_node(op, i, o, name=self.nn(k, op), **od.onnx_attrs(a)) for k, (op, i, o, a) in enumerate(self.nodes)]
        g = helper.make_graph(nodes, 'g', ins, [helper.make_tensor_value_info(o, od.D2TP[self.dt(o)], None) for o in self.outputs],
                              [numpy_helper.from_array(x, n) for n, x in self.inits])
        return helper.make_model(g, opset_imports=[helper.make_opsetid('', self.opset)])

    def feed(self, a):
        return {n: self.val[n][a] for n, _, _ in self.inputs}

    def rec(self, declare='sym'):
        return dict(inputs=[dict(n=n, d=d, s=[-1]) if declare == 'norank' else dict(n=n, s=[-1 if isinstance(x, str) and declare != 'fixed' else self.symbolic[x][0] if isinstance(x, str) else x for x in dims], d=d)
                            for n, d, dims in self.inputs],
                    inits=[dict(n=n, **od.enc_in(x)) for n, x in self.inits],
                    nodes=[dict(n=self.nn(k, op), op=op, a=od.enc_attr(a), i=list(i), o=list(o)) for k, (op, i, o, a) in enumerate(self.nodes)],
                    outputs=list(self.outputs), steps=[])

    def sig(self):
        w = {n: x for n, x in self.inits}

        def c(n):
            return n + ('=' + str(w[n].tolist()).replace(' ', '') if n in w and w[n].size <= 4 else '')
        return ' '.join(f"{op}({','.join(c(i) for i in ins)})->{','.join(o)}" + ('' if not a else str(od.enc_attr(a)).replace(' ', ''))
                        for op, ins, o, a in self.nodes) + f' opset={self.opset}'
