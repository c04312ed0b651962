"""C12: the shape engine."""
import os, tempfile
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
import vlib
from vlib import call, dims, names

ot = vlib.import_repo()


class Net:
    def __init__(self, r):
        self.r = r
        self.nodes, self.inits, self.shp = [], [], {}
        self.k = 0

    def const(self, x):
        n = f'w{len(self.inits)}'
        self.inits.append(numpy_helper.from_array(np.asarray(x), n))
        return n

    def op(self, op, ins, n=1, **a):
        self.k += 1
        outs = [f't{self.k}' + ('' if j == 0 else f'_{j}') for j in range(n)]
        self.nodes.append(helper.make_node(op, ins, outs, name=f'n{self.k}', **a))
        return outs[0] if n == 1 else outs

    def weight(self, *s):
        return self.const(np.zeros(s, np.float32))

    # images: x = (name, channels)
    def image(self, x, c):
        r = self.r
        t = r.random()
        if t < .3:
            k, s, d = [r.choice([1, 2, 3, 3, 5]) for _ in 'hw'], [r.choice([1, 2, 2, 3, 4]) for _ in 'hw'], [r.choice([1, 1, 1, 2]) for _ in 'hw']
            p = [r.randint(0, 2) for _ in range(4)]
            m = r.randint(1, 4)
            a = dict(kernel_shape=k, strides=s, dilations=d)
            if r.random() < .8:
                a['pads'] = p
            else:
                a['auto_pad'] = r.choice(['SAME_UPPER', 'SAME_LOWER', 'VALID'])
                a['dilations'] = [1, 1]
            return self.op('Conv', [x, self.weight(m, c, *k)], **a), m
        if t < .45:
            k = [r.choice([2, 3]) for _ in 'hw']
            a = dict(kernel_shape=k, strides=[r.choice([1, 2, 2, 3]) for _ in 'hw'], pads=[r.randint(0, 1) for _ in range(4)])
            if r.random() < .4:
                a['ceil_mode'] = 1
            return self.op(r.choice(['MaxPool', 'AveragePool']), [x], **a), c
        if t < .53:
            return self.op('Resize', [x, '', self.const(np.array([1, 1, r.choice([2, 1.5, .5, 3]), r.choice([2, 1, .5])], np.float32))], mode='nearest'), c
        if t < .58:
            k = [r.choice([2, 3, 4]) for _ in 'hw']
            return self.op('ConvTranspose', [x, self.weight(c, c, *k)], kernel_shape=k, strides=[r.choice([1, 2]) for _ in 'hw'], pads=[r.randint(0, 1) for _ in range(4)]), c
        if t < .65:
            return self.op('Concat', [x, x], axis=r.choice([2, 3])), c
        if t < .72:
            return self.op('Slice', [x, self.const(np.array([r.randint(0, 2)])), self.const(np.array([r.choice([2**31 - 1, 2**62, -1])])), self.const(np.array([r.choice([2, 3])])), self.const(np.array([r.choice([1, 2, 2, 3])]))]), c
        if t < .77:
            return self.op('Pad', [x, self.const(np.array([0, 0, r.randint(0, 2), 0, 0, 0, 1, r.randint(0, 2)]))]), c
        if t < .8:
            return self.op('Transpose', [x], perm=[0, 1, 3, 2]), c
        if t < .83:
            return self.op('Slice', [x, self.const(np.array([-1])), self.const(np.array([-2**31])), self.const(np.array([2])), self.const(np.array([r.choice([-1, -2])]))]), c
        return self.op(r.choice(['Relu', 'Sigmoid', 'Neg', 'Identity']), [x]), c

    def head(self, x, c):
        """Dimensions that leave the picture."""
        r = self.r
        t = r.choice(['gap', 'flat', 'shape', 'rows', 'reduce', 'cos', 'expand'])
        if t == 'gap':
            y = self.op('Flatten', [self.op('GlobalAveragePool', [x])])
            return self.op('Gemm', [y, self.weight(c, 5)])
        if t == 'flat':
            return self.op('Reshape', [x, self.const(np.array([0, -1]))])       # a product of dimensions
        if t == 'shape':
            s = self.op('Shape', [x])
            h = self.op('Gather', [s, self.const(np.array([r.choice([0, 2, 3])]))])
            h2 = self.op(r.choice(['Mul', 'Div', 'Add']), [h, self.const(np.array([r.choice([2, 3])]))])
            return self.op('Expand', [self.const(np.zeros((1, 1), np.float32)), self.op('Concat', [self.const(np.array([2])), h2], axis=0)])
        if t == 'rows':
            s = self.op('Shape', [x])
            h = self.op('Gather', [s, self.const(np.array([0]))])
            return self.op('Reshape', [x, self.op('Concat', [h, self.const(np.array([c, -1]))], axis=0)])
        if t == 'reduce':
            return self.op('ReduceMax', [x], axes=[r.choice([1, 2, 3])], keepdims=r.choice([0, 1]))
        if t == 'cos':
            s = self.op('Gather', [self.op('Shape', [x]), self.const(np.array(r.choice([0, 2, 3])))])
            return self.op('Range', [self.const(np.array(0)), s, self.const(np.array(r.choice([1, 2, 3])))])
        s = self.op('Shape', [x])
        return self.op('ConstantOfShape', [s])

    def tokens(self, x, w):
        """x: [N, S, w]."""
        r = self.r
        t = r.random()
        if t < .2:
            m = r.choice([4, 6])
            return self.op('MatMul', [x, self.weight(w, m)]), w if False else m
        if t < .35:
            y = self.op('Transpose', [x], perm=[0, 2, 1])
            z = self.op('MatMul', [x, y])                # N, S, S
            return self.op('MatMul', [self.op('Softmax', [z], axis=-1), x]), w
        if t < .5:
            s = self.op('Shape', [x])
            n, l = (self.op('Gather', [s, self.const(np.array([i]))]) for i in (0, 1))
            y = self.op('Reshape', [x, self.op('Concat', [n, l, self.const(np.array([2, -1]))], axis=0)])
            y = self.op('Transpose', [y], perm=[0, 2, 1, 3])
            y = self.op('Transpose', [y], perm=[0, 2, 1, 3])
            return self.op('Reshape', [y, self.const(np.array([0, 0, w]))]), w
        if t < .6:
            return self.op('Concat', [x, self.op('Slice', [x, self.const(np.array([0])), self.const(np.array([r.randint(1, 3)])), self.const(np.array([1]))])], axis=1), w
        if t < .7:
            return self.op('Slice', [x, self.const(np.array([r.randint(0, 2)])), self.const(np.array([2**31 - 1])), self.const(np.array([1])), self.const(np.array([r.choice([1, 2])]))]), w
        if t < .8:
            y = self.op('Transpose', [x], perm=[0, 2, 1])
            k = r.choice([1, 2, 3, 4])
            y = self.op('Conv', [y, self.weight(w, w, k)], kernel_shape=[k], strides=[r.choice([1, 2, 3, k])], pads=[0, 0])
            return self.op('Transpose', [y], perm=[0, 2, 1]), w
        if t < .85:
            return self.op('Split', [x], n=1, axis=1), w
        return self.op(r.choice(['Relu', 'Sigmoid', 'Neg']), [x]), w


def build(r):
    m = Net(r)
    var = {}
    if r.random() < .6:
        lo = r.choice([8, 9, 13, 16, 20, 24, 31])
        desc = {'x': ['N', 3, 'H', r.choice(['W', 'W', 'W', 'H', 16])]}
        var['N'] = (1, r.choice([1, 2, 4, 5]))
        for v in desc['x'][2:]:
            if isinstance(v, str) and v not in var:
                l = r.choice([lo, lo, 224, 12])
                var[v] = (l, l + r.choice([1, 4, 8, 15, 24]))
        ins = [helper.make_tensor_value_info('x', 1, desc['x'] if r.random() < .7 else [None, 3, None, None])]
        x, c = 'x', 3
        parts = [(x, c)]
        for _ in range(r.randint(1, 6)):
            x, c = m.image(*r.choice(parts[-2:]))
            parts.append((x, c))
        for _ in range(r.randint(0, 2)):
            m.head(*r.choice(parts[-3:]))
    else:
        ids = r.random() < .5
        var['N'] = (1, r.choice([1, 3, 4]))
        lo = r.choice([4, 5, 8, 16])
        var['S'] = (lo, lo + r.choice([3, 8, 16, 30]))
        if ids:
            desc = {'ids': ('N', 'S') if r.random() < .5 else ['N', 'S']}
            ins = [helper.make_tensor_value_info('ids', TensorProto.INT64, ['N', 'S'])]
            x = m.op('Gather', [m.weight(10, 4), 'ids'])
        else:
            desc = {'x': ['N', 'S', 4]}
            ins = [helper.make_tensor_value_info('x', 1, ['N', 'S', 4])]
            x = m.op('Relu', ['x'])
        w = 4
        if r.random() < .35:                       # a second input with its own length
            var['P'] = (1, r.choice([1, 5, 9]))
            desc['past'] = ['N', 'P', w]
            ins.append(helper.make_tensor_value_info('past', 1, ['N', None, w]))
            if r.random() < .5:
                x = m.op('Concat', ['past', x], axis=1)        # a sum of two variables
            else:
                m.op('MatMul', [m.op('Relu', [x]), m.op('Transpose', ['past'], perm=[0, 2, 1])])
        for _ in range(r.randint(1, 5)):
            x, w = m.tokens(x, w)
        if r.random() < .2:
            ins.append(helper.make_tensor_value_info('fix', 1, [3, 5]))
            m.op('Relu', ['fix'])
    prod = {o for n in m.nodes for o in n.output}
    used = {i for n in m.nodes for i in n.input}
    outs = [o for n in m.nodes for o in n.output if o not in used]
    g = helper.make_graph(m.nodes, 'g', ins, [helper.make_tensor_value_info(o, 1, None) for o in outs], m.inits)
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)]), desc, var


def points(r, var, T):
    """Whole lines along each variable, and random assignments."""
    names_ = list(var)
    pts, lines = [], []

    def add(p):
        if p not in pts:
            pts.append(p)
        return pts.index(p) + 1
    base = {v: lo for v, (lo, hi) in var.items()}
    for v, (lo, hi) in var.items():
        lines.append(dict(v=v, at=[add({**base, v: x}) for x in range(lo, hi + 1)]))
    for _ in range(20 if T else 8):
        add({v: r.randint(lo, hi) for v, (lo, hi) in var.items()})
    add({v: hi for v, (lo, hi) in var.items()})
    return pts, lines


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_ShapeEngine', workers=8, timeout=800, expect_actions=('Layer', 'Widen', 'Start', 'Sample'), consts=dict(Hi=11 if T else 9))
    r = vlib.rng('c12')
    cases = []
    tries = 0
    while len(cases) < (1500 if T else 280) and tries < 20000:
        tries += 1
        mp, desc, var = build(r)
        pts, lines = points(r, var, T)
        g = ot.Model(mp).graph
        tensors = list(g.dynamics)
        dt = {i.name: helper.tensor_dtype_to_np_dtype(i.type.tensor_type.elem_type) for i in mp.graph.input}
        inf = {t: [] for t in tensors}
        ok = True
        for k, p in enumerate(pts):
            # inference on a graph of its own, now and then on a fresh one
            if k == 0 or r.random() < .1:
                g = ot.Model(mp).graph
            feed = {n: np.zeros([p[v] if isinstance(v, str) else v for v in d], dt[n]) for n, d in desc.items()}
            ok, _, err = call(g.shape_infer, feed)
            if not ok:
                break
            for t in tensors:
                inf[t].append(dims(g.tensormap[t].get_shape()))
            if any(x < 1 for t in tensors for x in inf[t][-1]):
                ok = False
                break
        if not ok:
            chk.actions['not valid in the whole range'] = chk.actions.get('not valid in the whole range', 0) + 1
            continue
        api = r.random() < .3
        d0 = {k: list(v) for k, v in desc.items()}
        given = {k: (tuple(v) if isinstance(v, tuple) else list(v)) for k, v in desc.items()}
        rng = {v: list(x) if r.random() < .5 else tuple(x) for v, x in var.items()}
        if api:
            ok, se, err = call(lambda: ot.model_shape_regress(mp, given, rng)[0])
        else:
            ok, se, err = call(lambda: ot.Model(mp).graph.shape_regress(given, rng))
        order = list(range(len(pts)))
        r.shuffle(order)
        eng = {t: [None] * len(pts) for t in tensors}

        def query():
            last = {}
            for k in order:
                for v, x in pts[k].items():
                    if last.get(v) != x or r.random() < .5:
                        se.update_variable(v, x)
                last = pts[k]
                se.update_variables()
                for t in tensors:
                    eng[t][k] = dims(se.get_tensorshape(t))
        if ok:
            ok, _, err = call(query)
        prod = {o: list(n.input) for n in mp.graph.node for o in n.output}
        rec = dict(vars=list(var), pts=pts, lines=lines, ok=ok, err=err,
                   ins=[dict(n=n, desc=[dict(v=v if isinstance(v, str) else '', i=0 if isinstance(v, str) else v) for v in d]) for n, d in d0.items()],
                   ts=[dict(n=t, eng=eng[t] if ok else [], inf=inf[t], **{'from': prod.get(t, [])}) for t in tensors])
        chk.actions['engine'] = chk.actions.get('engine', 0) + 1
        sig = 'engine ' + ' '.join(f"{n.op_type}({','.join(n.input)})->{','.join(n.output)}" + ''.join(f' {a.name}={helper.get_attribute_value(a)}' for a in n.attribute) for n in mp.graph.node) \
            + ' ' + str({i.name: numpy_helper.to_array(i).tolist() for i in mp.graph.initializer if numpy_helper.to_array(i).size < 9}) + f' {desc} {var}'
        cases.append(dict(sig=sig, rec=rec))
    chk.validate('T_ShapeEngine', cases, shard=12)
    chk.assumptions += ['shape inference itself is decided by C04-C06; a dimension that mixes variables is outside the engine\'s class']
