"""Operator instances: random generation, encoding for the specification, running the tool and the reference."""
import math, random, warnings
from fractions import Fraction
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
import vlib
from vlib import call, dims

ot = vlib.import_repo()

NP2D = {'float16': 'f16', 'float32': 'f32', 'float64': 'f64', 'int8': 'i8', 'uint8': 'u8', 'int16': 'i16', 'uint16': 'u16',
        'int32': 'i32', 'int64': 'i64', 'bool': 'b'}
D2NP = {v: np.dtype(k) for k, v in NP2D.items()}
D2TP = {'f32': TP.FLOAT, 'u8': TP.UINT8, 'i8': TP.INT8, 'u16': TP.UINT16, 'i16': TP.INT16, 'i32': TP.INT32, 'i64': TP.INT64, 'b': TP.BOOL,
        'f16': TP.FLOAT16, 'f64': TP.DOUBLE}
BIG = 10 ** 9


def dtype_name(d):
    if d is None:
        return '?none'
    try:
        return NP2D.get(np.dtype(d).name, '?' + str(d))
    except TypeError:
        return '?' + str(d)


def rat(x):
    """A number as the specification writes it; None if it cannot."""
    if isinstance(x, (bool, np.bool_)):
        return [int(x), 1]
    if isinstance(x, (int, np.integer)):
        return [max(-BIG, min(BIG, int(x))), 1]
    x = float(x)
    if not math.isfinite(x):
        return [0, 0]
    f = Fraction(x).limit_denominator(720)
    if abs(float(f) - x) > 1e-5 * max(1.0, abs(x)):
        return [0, 0]
    if abs(f.numerator) > BIG:
        return [0, 0]
    return [f.numerator, f.denominator]


def values(arr, limit=256):
    """(known, values) of an array."""
    if arr is None or not isinstance(arr, (np.ndarray, np.generic)) or np.asarray(arr).size > limit:
        return False, []
    return True, [rat(x) for x in np.asarray(arr).reshape(-1)]


def enc_in(x, has=True):
    if x is None:
        return dict(om=True, s=[], d='', has=False, v=[])
    h, v = values(x) if has else (False, [])
    return dict(om=False, s=list(x.shape), d=dtype_name(x.dtype), has=h, v=v)


def clip(x):
    return max(-BIG, min(BIG, int(x))) if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else x


def enc_attr(a):
    out = {}
    for k, v in a.items():
        if k == 'equation' or v is None:
            continue
        if isinstance(v, np.ndarray):
            out[k] = dict(s=list(v.shape), d=dtype_name(v.dtype), v=values(v)[1])
        elif isinstance(v, float):
            out[k] = rat(v)
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], float):
            out[k] = [rat(x) for x in v]
        elif isinstance(v, (list, tuple)):
            out[k] = [clip(x) for x in v]
        else:
            out[k] = clip(v)
    if not out:
        out['none'] = 0
    return out


def onnx_attrs(a):
    return {k: (numpy_helper.from_array(v) if isinstance(v, np.ndarray) else v) for k, v in a.items() if k not in ('terms', 'out') and v is not None}


class Inst:
    """op, attributes, inputs (array or None), number of outputs, opset, which inputs must be constants."""

    def __init__(self, op, ins, a=None, n=1, opset=17, const=(), refuse=False, domain='', novalue=False):
        self.op, self.a, self.n, self.opset, self.refuse, self.domain, self.novalue = op, dict(a or {}), n, opset, refuse, domain, novalue
        self.ins = list(ins)
        while self.ins and self.ins[-1] is None:
            self.ins.pop()
        self.const = set(const)
        self.dt = None

    def model(self, r, all_const=False, wrap=False):
        names, inputs, inits, feed = [], [], [], {}
        for k, x in enumerate(self.ins):
            if x is None:
                names.append('')
                continue
            nm = f'x{k}'
            names.append(nm)
            if all_const or k in self.const:
                inits.append(numpy_helper.from_array(x, nm))
            else:
                inputs.append(helper.make_tensor_value_info(nm, D2TP[dtype_name(x.dtype)], list(x.shape)))
                feed[nm] = x
        outs = [f'y{k}' for k in range(self.n)]
        node = helper.make_node(self.op, names, outs, name='node_under_test', domain=self.domain, **onnx_attrs(self.a))
        g = helper.make_graph([node], 'g', inputs, [helper.make_empty_tensor_value_info(o) for o in outs], inits)
        for o, vi in zip(outs, g.output):
            vi.type.tensor_type.elem_type = TP.FLOAT
        m = helper.make_model(g, opset_imports=[helper.make_opsetid('', self.opset)])
        return m, feed, outs

    def rec(self, want):
        return dict(op=self.op, a=enc_attr(self.a), n=self.n, ins=[enc_in(x) for x in self.ins], want=want, ok=True, err='', named=True,
                    unsupported=False, outs=[], who='')

    def sig(self):
        return f"{self.op} {enc_attr(self.a)} " + ' '.join('-' if x is None else f'{dtype_name(x.dtype)}{list(x.shape)}'.replace(' ', '') +
                                                            ('=' + ','.join(str(v) for v in x.reshape(-1)[:12]) if k in self.const else '')
                                                            for k, x in enumerate(self.ins)) + f' n={self.n} opset={self.opset}'


def observe(t, val=False):
    h, v = values(t.numpy) if val and t.numpy is not None else (False, [])
    if val and t.numpy is not None:
        return dict(s=dims(np.shape(t.numpy)), d=dtype_name(t.numpy.dtype), has=h, v=v)
    return dict(s=dims(t.shape), d=dtype_name(t.dtype), has=False, v=[])


def run_shape(inst, r):
    m, feed, outs = inst.model(r)
    rec = inst.rec('judge' if inst.refuse else 'shape')

    def go():
        g = ot.Model(m).graph
        g.shape_infer(feed)
        return [observe(g.tensormap[o]) for o in outs]
    ok, res, err = call(go)
    rec['ok'], rec['err'], rec['named'] = ok, err, 'node_under_test' in err
    rec['outs'] = res if ok else []
    return rec


def run_value(inst, r):
    m, feed, outs = inst.model(r)
    rec = inst.rec('value')

    def go():
        g = ot.Model(m).graph
        g.value_infer(feed)
        return [observe(g.tensormap[o], True) for o in outs]
    ok, res, err = call(go)
    rec['ok'], rec['err'], rec['unsupported'] = ok, err, 'NotImplementedError' in err
    rec['outs'] = res if ok else []
    return rec


def run_ref(inst, r):
    """The same instance in onnx.reference (an evaluator independent of both the tool and the specification)."""
    from onnx.reference import ReferenceEvaluator
    m, feed, outs = inst.model(r)
    rec = inst.rec('value')
    rec['who'] = 'reference'
    ok, res, err = call(lambda: ReferenceEvaluator(m).run(None, feed))
    if not ok:
        return None
    rec['outs'] = [dict(s=list(np.shape(x)), d=dtype_name(np.asarray(x).dtype), has=values(np.asarray(x))[0], v=values(np.asarray(x))[1]) for x in res]
    return rec


# ------------------------------------------------------------------ generation
class Gen:
    zero = .0

    def __init__(self, r):
        self.r = r

    def shape(self, lo=1, hi=4, maxd=4, zero=None):
        r = self.r
        zero = self.zero if zero is None else zero
        return [0 if r.random() < zero else r.randint(1, maxd) for _ in range(r.randint(lo, hi))]

    def arr(self, s, d='f32', lo=-12, hi=12, q=4):
        r = self.r
        n = int(np.prod(s)) if len(s) else 1
        if d == 'b':
            v = [r.random() < .5 for _ in range(n)]
        elif d[0] == 'f':
            v = [r.randint(lo, hi) / q for _ in range(n)]
        elif d[0] == 'u':
            v = [r.randint(0, abs(hi)) for _ in range(n)]
        else:
            v = [r.randint(lo, hi) for _ in range(n)]
        return np.array(v, dtype=D2NP[d]).reshape(s)

    def perm_of(self, n):
        p = list(range(n))
        self.r.shuffle(p)
        return p

    def axis(self, rank):
        return self.r.randint(-rank, rank - 1)

    def bshape(self, s):
        """A shape that broadcasts with s (not necessarily to s)."""
        r = self.r
        t = [x if r.random() < .6 else 1 for x in s]
        k = r.random()
        if k < .35 and t:
            t = t[r.randint(0, len(t)):]
        elif k < .45:
            t = [r.randint(1, 3)] + t
        return t

    def bpair(self):
        r = self.r
        base = self.shape(0 if r.random() < .1 else 1, 4, zero=.02)
        a = [x if r.random() < .75 else 1 for x in base]
        b = [x if r.random() < .6 else 1 for x in base]
        if r.random() < .3:
            a = a[r.randint(0, len(a)):]
        elif r.random() < .4:
            b = b[r.randint(0, len(b)):]
        return a, b

    def dt(self, *c):
        return self.r.choice(c)


OPS = {}


def op(*names_):
    def deco(f):
        for n in names_:
            OPS[n] = f
        return f
    return deco


@op('Neg', 'Abs', 'Ceil', 'Floor', 'Round', 'Exp', 'Log', 'Sqrt', 'Sin', 'Cos', 'Tanh', 'Sigmoid', 'Atan', 'Sign', 'HardSwish', 'Relu', 'Erf',
    'Identity', 'Softplus', 'Reciprocal', 'Elu', 'Not')
def _unary(g, o):
    d = 'b' if o == 'Not' else g.dt('f32', 'f32', 'f16', 'f64')
    if o in ('Neg', 'Abs', 'Sign', 'Identity', 'Relu') and g.r.random() < .4:
        d = g.dt('i64', 'i32')
    if o == 'HardSwish' and d == 'f16':
        d = 'f32'
    x = g.arr(g.shape(0 if g.r.random() < .2 else 1, 4), d)
    if o in ('Exp', 'Sin', 'Cos', 'Tanh', 'Sigmoid', 'Atan', 'Erf') and g.r.random() < .6:
        x = np.zeros_like(x)
    if o == 'Log':
        x = np.ones_like(x) if g.r.random() < .6 else np.abs(x) + 1
    if o == 'Sqrt':
        x = (x * x)
    if o == 'Softplus' and d in ('f32', 'f64') and g.r.random() < .4:
        x = (x * 200).astype(x.dtype)
    if o == 'Reciprocal':
        x = np.array([g.r.choice([-4, -2, -1, -.5, .25, .5, 1, 2, 4]) for _ in range(x.size)], x.dtype).reshape(x.shape)
    return Inst(o, [x], opset=22 if o == 'HardSwish' and g.r.random() < .0 else 17)


@op('HardSigmoid', 'LeakyRelu')
def _unary_alpha(g, o):
    a = {}
    if g.r.random() < .8:
        a['alpha'] = g.r.choice([.125, .25, .5])
    if o == 'HardSigmoid' and (a or g.r.random() < .5):
        a['beta'] = g.r.choice([.25, .5])
    return Inst(o, [g.arr(g.shape(0 if g.r.random() < .1 else 1, 4), g.dt('f32', 'f64'))], a)


@op('LpNormalization')
def _lpn(g, o):
    s = g.shape(1, 4)
    return Inst(o, [g.arr(s)], {'axis': g.axis(len(s))} if g.r.random() < .5 else {})


@op('LRN')
def _lrn(g, o):
    return Inst(o, [g.arr(g.shape(4, 4))], {'size': g.r.choice([1, 3, 5])})


@op('Softmax', 'LogSoftmax', 'Hardmax')
def _along(g, o):
    s = g.shape(1, 4)
    a = {'axis': g.axis(len(s))} if g.r.random() < .7 else {}
    x = g.arr(s)
    if o == 'Softmax' and g.r.random() < .7:
        ax = a.get('axis', -1)
        x = np.broadcast_to(np.take(x, [0], ax), x.shape).copy()
        if g.r.random() < .3:
            x *= np.float32(200)
    return Inst(o, [x], a)


@op('Add', 'Sub', 'Mul', 'Div', 'Min', 'Max', 'Sum', 'Mod', 'Pow')
def _arith(g, o):
    r = g.r
    a, b = g.bpair()
    d = g.dt('f32', 'f32', 'f64', 'i64', 'i64', 'i32')
    at = {}
    if o == 'Sum' and d[0] == 'i':
        d = 'f32'
    x, y = g.arr(a, d), g.arr(b, d)
    if o == 'Div' or o == 'Mod':
        y = np.where(y == 0, np.array(2, y.dtype), y)
        if d[0] == 'f':
            y = np.array([r.choice([-2, -1, .5, 1, 2, 4, .25]) for _ in range(y.size)], y.dtype).reshape(b)
            at = {'fmod': 1} if o == 'Mod' else {}
        elif o == 'Mod' and r.random() < .3:
            at = {'fmod': 1}
    if o == 'Pow':
        y = np.array([r.choice([0, 1, 2, 3]) for _ in range(y.size)], y.dtype).reshape(b)
        x = np.clip(x, -4, 4)
    ins = [x, y]
    if o in ('Min', 'Max', 'Sum'):
        k = r.random()
        if k < .2:
            ins = [x]
        elif k < .5:
            full = list(np.broadcast_shapes(tuple(a), tuple(b)))
            ins.append(g.arr([t if r.random() < .6 else 1 for t in full], d))
    return Inst(o, ins, at)


@op('Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'And', 'Or', 'Xor')
def _cmp(g, o):
    a, b = g.bpair()
    d = 'b' if o in ('And', 'Or', 'Xor') else g.dt('f32', 'i64', 'i32')
    return Inst(o, [g.arr(a, d, -3, 3, 1), g.arr(b, d, -3, 3, 1)])


@op('Where')
def _where(g, o):
    a, b = g.bpair()
    full = list(np.broadcast_shapes(tuple(a), tuple(b)))
    c = [t if g.r.random() < .6 else 1 for t in full]
    d = g.dt('f32', 'i64')
    xs = [g.arr(a, 'b')], [g.arr(b, d)], [g.arr(c, d)]
    return Inst(o, [g.arr(a, 'b'), g.arr(b, d), g.arr(c, d)]) if g.r.random() < .5 else Inst(o, [g.arr(c, 'b'), g.arr(a, d), g.arr(b, d)])


@op('PRelu')
def _prelu(g, o):
    s = g.shape(1, 4)
    t = [x if g.r.random() < .6 else 1 for x in s][g.r.randint(0, len(s)):]
    return Inst(o, [g.arr(s), g.arr(t)])


@op('Clip')
def _clip(g, o):
    d = g.dt('f32', 'i64')
    lo, hi = (g.arr([], d, -8, 0), g.arr([], d, 1, 8)) if g.r.random() < .8 else (g.arr([], d, -3, 8), g.arr([], d, -8, 3))
    k = g.r.randint(0, 3)
    return Inst(o, [g.arr(g.shape(1, 4), d), lo if k & 1 else None, hi if k & 2 else None])


@op('CumSum')
def _cumsum(g, o):
    s = g.shape(1, 3)
    a = {}
    if g.r.random() < .3:
        a['exclusive'] = 1
    if g.r.random() < .3:
        a['reverse'] = 1
    return Inst(o, [g.arr(s), np.array(g.axis(len(s)), np.int64)], a, const=[1])


@op('Trilu')
def _trilu(g, o):
    s = g.shape(2, 4)
    a = {'upper': g.r.choice([0, 1])} if g.r.random() < .7 else {}
    return Inst(o, [g.arr(s), np.array(g.r.randint(-3, 3), np.int64) if g.r.random() < .6 else None], a, const=[1])


@op('Dropout')
def _dropout(g, o):
    return Inst(o, [g.arr(g.shape(1, 4))], n=g.r.choice([1, 2]))


@op('Cast')
def _cast(g, o):
    d = g.dt('f32', 'i64', 'i32', 'b', 'f16')
    return Inst(o, [g.arr(g.shape(0, 3), d, -8, 8)], {'to': g.r.choice([1, 6, 7, 9, 10, 11] if d[0] == 'f' else [1, 3, 5, 6, 7, 9, 10, 11])})


@op('InstanceNormalization')
def _inorm(g, o):
    s = g.shape(3, 5, 3)
    return Inst(o, [g.arr(s), g.arr([s[1]]), g.arr([s[1]])], const=[1, 2])


@op('BatchNormalization')
def _bn(g, o):
    s = g.shape(2, 4, 3)
    c = s[1]
    var = np.array([g.r.choice([0, 1, 4, 9, .25]) - .0 for _ in range(c)], np.float32)
    eps = g.r.choice([None, None, .0, .25]) if True else None
    a = {}
    if g.r.random() < .8:
        e = .25 if g.r.random() < .3 else 0.0
        a['epsilon'] = e
        var = np.array([g.r.choice([1, 4, 9, .25]) for _ in range(c)], np.float32) - np.float32(e)
        var = np.where(var + e == .25, var, var).astype(np.float32)
    n = 1
    if g.r.random() < .2:
        a['training_mode'] = 1
        n = g.r.choice([1, 3, 3])
    return Inst(o, [g.arr(s), g.arr([c]), g.arr([c]), g.arr([c]), var], a, n=n, const=[1, 2, 3, 4])


@op('LayerNormalization')
def _ln(g, o):
    s = g.shape(2, 4)
    ax = g.axis(len(s))
    a = {'axis': ax} if g.r.random() < .7 else {}
    ax = a.get('axis', -1) % len(s)
    return Inst(o, [g.arr(s), g.arr(s[ax:]), g.arr(s[ax:]) if g.r.random() < .7 else None], a, const=[1, 2], n=g.r.choice([1, 1, 1, 3]))


@op('Transpose')
def _transpose(g, o):
    s = g.shape(0, 5, 3)
    return Inst(o, [g.arr(s, g.dt('f32', 'i64'))], {'perm': g.perm_of(len(s))} if g.r.random() < .8 and s else {})


@op('Gemm')
def _gemm(g, o):
    r = g.r
    m, k, n = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
    ta, tb = r.choice([0, 1]), r.choice([0, 1])
    a = {}
    if ta or r.random() < .3:
        a['transA'] = ta
    if tb or r.random() < .3:
        a['transB'] = tb
    if r.random() < .3:
        a['alpha'] = r.choice([.5, 2.0])
    if r.random() < .3:
        a['beta'] = r.choice([.5, 2.0])
    c = r.choice([None, [n], [m, n], [1, n], [m, 1], []])
    return Inst(o, [g.arr([k, m] if ta else [m, k], lo=-4, hi=4), g.arr([n, k] if tb else [k, n], lo=-4, hi=4), None if c is None else g.arr(c)], a)


def _mm_shapes(g):
    r = g.r
    m, k, n = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
    batch = g.shape(0, 2, 3)
    ba, bb = [x if r.random() < .7 else 1 for x in batch], [x if r.random() < .7 else 1 for x in batch]
    if r.random() < .3:
        bb = bb[1:]
    elif r.random() < .3:
        ba = ba[1:]
    a, b = ba + [m, k], bb + [k, n]
    t = r.random()
    if t < .12:
        a = [k]
    elif t < .24:
        b = [k]
    return a, b


@op('MatMul')
def _matmul(g, o):
    a, b = _mm_shapes(g)
    return Inst(o, [g.arr(a, lo=-4, hi=4), g.arr(b, lo=-4, hi=4)])


@op('MatMulInteger')
def _mmint(g, o):
    a, b = _mm_shapes(g)
    t = g.r.random()
    if .8 < t < .9 and len(a) == 2 and len(b) > 1:
        a = [a[1], a[1]]        # as many rows as columns
    ins = [g.arr(a, 'u8'), g.arr(b, 'i8')]
    if t < .3:
        ins += [g.arr([], 'u8'), g.arr([], 'i8')]
    elif t < .5:
        ins += [None, g.arr([], 'i8')]
    elif t < .7:
        ins += [g.arr([], 'u8')]
    elif t < .9 and len(a) == 2 and len(b) > 1:
        ins += [g.arr([a[0]], 'u8'), g.arr([b[-1]], 'i8')] if g.r.random() < .6 else [g.arr([a[0]], 'u8')]    # one per row and per column
    return Inst(o, ins)


@op('QLinearMatMul')
def _qlmm(g, o):
    a, b = _mm_shapes(g)
    d = g.dt('u8', 'i8')
    one = np.float32(1).reshape([])
    return Inst(o, [g.arr(a, 'u8'), one, np.uint8(0).reshape([]), g.arr(b, 'i8'), one, np.int8(0).reshape([]), one, np.zeros([], D2NP[d])], const=[1, 2, 4, 5, 6, 7])


@op('Tile')
def _tile(g, o):
    s = g.shape(1, 4, 3)
    return Inst(o, [g.arr(s, g.dt('f32', 'i64')), np.array([g.r.randint(1, 3) for _ in s], np.int64)], const=[1])


@op('Gather')
def _gather(g, o):
    s = g.shape(1, 4)
    a = {'axis': g.axis(len(s))} if g.r.random() < .7 else {}
    n = s[a.get('axis', 0)]
    t = g.shape(0, 2, 3)
    idx = np.array([g.r.randint(-n, n - 1) for _ in range(int(np.prod(t)))], g.r.choice([np.int64, np.int32])).reshape(t)
    return Inst(o, [g.arr(s, g.dt('f32', 'i64')), idx], a, const=[1] if g.r.random() < .5 else [])


@op('GatherElements')
def _gatherel(g, o):
    s = g.shape(1, 3)
    ax = g.axis(len(s))
    t = [g.r.randint(1, x) for x in s]
    t[ax] = g.r.randint(1, 4)
    idx = np.array([g.r.randint(-s[ax], s[ax] - 1) for _ in range(int(np.prod(t)))], np.int64).reshape(t)
    return Inst(o, [g.arr(s, g.dt('f32', 'i64')), idx], {'axis': ax} if ax or g.r.random() < .5 else {})


@op('GatherND')
def _gathernd(g, o):
    r = g.r
    s = g.shape(1, 4, 3)
    b = r.randint(0, min(1, len(s) - 1)) if r.random() < .4 else 0
    l = r.randint(1, len(s) - b)
    front = s[:b] + g.shape(0 if b == 0 else 0, 2, 3)
    t = front + [l]
    idx = np.zeros(t, np.int64)
    for i in np.ndindex(*t):
        idx[i] = r.randint(0, s[b + i[-1]] - 1) if r.random() < .8 else r.randint(-s[b + i[-1]], -1)
    return Inst(o, [g.arr(s, g.dt('f32', 'i64')), idx], {'batch_dims': b} if b else {})


@op('ScatterElements')
def _scatterel(g, o):
    s = g.shape(1, 3)
    idx = np.zeros(s, np.int64)
    return Inst(o, [g.arr(s), idx, g.arr(s)], {'axis': 0})


@op('ScatterND')
def _scatternd(g, o):
    r = g.r
    s = g.shape(1, 3, 3)
    l = r.randint(1, len(s))
    cells = list(np.ndindex(*s[:l]))
    r.shuffle(cells)
    k = r.randint(1, min(3, len(cells)))
    idx = np.array(cells[:k], np.int64).reshape([k, l])
    a = {}
    if r.random() < .3:
        a = {'reduction': r.choice(['add', 'mul'])}
        if r.random() < .5:
            idx[-1] = idx[0]
    return Inst(o, [g.arr(s), idx, g.arr([k] + s[l:], lo=-4, hi=4)], a, opset=18)


@op('Concat')
def _concat(g, o):
    r = g.r
    s = g.shape(1, 4)
    ax = g.axis(len(s))
    d = g.dt('f32', 'i64')
    ins = []
    for _ in range(r.randint(1, 4)):
        t = list(s)
        t[ax] = r.randint(0 if r.random() < .1 else 1, 4)
        ins.append(g.arr(t, d))
    return Inst(o, ins, {'axis': ax})


@op('GridSample')
def _grid(g, o):
    n = g.r.choice([2, 2, 3])
    s = g.shape(2 + n, 2 + n, 3)
    return Inst(o, [g.arr(s), g.arr([s[0]] + g.shape(n, n) + [n])], {}, opset=20)


@op('DepthToSpace')
def _d2s(g, o):
    b = g.r.choice([1, 2, 3])
    return Inst(o, [g.arr([g.r.randint(1, 2), b * b * g.r.randint(1, 2), g.r.randint(1, 3), g.r.randint(1, 3)])], {'blocksize': b})


@op('OneHot')
def _onehot(g, o):
    s = g.shape(0, 3, 3)
    depth = g.r.randint(1, 4)
    a = {'axis': g.r.randint(-len(s) - 1, len(s))} if g.r.random() < .7 else {}
    d = g.dt('f32', 'i64')
    dep = np.array(depth, np.int64) if g.r.random() < .5 else np.array([depth], np.int64)
    return Inst(o, [g.arr(s, 'i64', -depth, depth - 1) if g.r.random() < .8 else g.arr(s, 'i64', -6, 6), dep, g.arr([2], d)], a, const=[1, 2])


@op('Einsum')
def _einsum(g, o):
    r = g.r
    labels = {c: r.randint(1, 4) for c in 'bijk'}
    ell = r.random() < .3
    es = g.shape(1, 2, 3)
    k = r.choice([1, 2, 2, 2])
    terms, ins = [], []
    for _ in range(k):
        t = r.sample(sorted(labels), r.randint(1, 3))
        use = ell and r.random() < .8
        pos = 0 if r.random() < .7 else r.randint(0, len(t))
        seq = list(t)
        sh = [labels[c] for c in t]
        if use:
            seq = t[:pos] + ['...'] + t[pos:]
            sh = sh[:pos] + es + sh[pos:]
        terms.append(seq)
        ins.append(g.arr(sh))
    allc = [c for t in terms for c in t if c != '...']
    hasell = any('...' in t for t in terms)
    imp = r.random() < .25
    if imp:
        out = (['...'] if hasell else []) + sorted(c for c in set(allc) if allc.count(c) == 1)
    else:
        out = r.sample(sorted(set(allc)), r.randint(0, len(set(allc))))
        if hasell:
            p = 0 if r.random() < .7 else r.randint(0, len(out))
            out = out[:p] + ['...'] + out[p:]
    eq = ','.join(''.join(t) for t in terms) + ('' if imp else '->' + ''.join(out))
    if r.random() < .2:
        eq = eq.replace(',', ', ').replace('->', ' -> ')
    return Inst(o, ins, {'terms': terms, 'out': out, 'equation': eq})


@op('Unsqueeze')
def _unsq(g, o):
    s = g.shape(0, 3)
    k = g.r.randint(1, 2)
    n = len(s) + k
    axes = g.r.sample(range(n), k)
    axes = [x - n if g.r.random() < .3 else x for x in axes]
    x = g.arr(s, g.dt('f32', 'i64'))
    if g.r.random() < .4:
        return Inst(o, [x], {'axes': axes}, opset=11)
    return Inst(o, [x, np.array(axes, np.int64)], const=[1], opset=13)


@op('Squeeze')
def _sq(g, o):
    s = [1 if g.r.random() < .5 else x for x in g.shape(1, 4)]
    ones = [k for k, x in enumerate(s) if x == 1]
    x = g.arr(s, g.dt('f32', 'i64'))
    if not ones or g.r.random() < .25:
        return Inst(o, [x], opset=13)
    axes = g.r.sample(ones, g.r.randint(1, len(ones)))
    axes = [k - len(s) if g.r.random() < .3 else k for k in axes]
    if g.r.random() < .4:
        return Inst(o, [x], {'axes': axes}, opset=11)
    return Inst(o, [x, np.array(axes, np.int64)], const=[1], opset=13)


@op('Shape')
def _shape(g, o):
    s = g.shape(0, 4)
    a = {}
    if g.r.random() < .3:
        a['start'] = g.r.randint(-5, 4)
    if g.r.random() < .3:
        a['end'] = g.r.randint(-5, 4)
    return Inst(o, [g.arr(s)], a)


@op('Resize')
def _resize(g, o):
    r = g.r
    s = g.shape(3, 5)
    a = {'mode': r.choice(['nearest', 'linear', 'cubic'] if len(s) == 4 else ['nearest', 'linear'])} if r.random() < .9 else {}
    scales = np.array([1.0 if k < 2 else r.choice([.5, 1, 1.5, 2, 2.5, 3, .75]) for k in range(len(s))], np.float32)
    k = r.random()
    if k < .2:
        return Inst(o, [g.arr(s), scales], a, opset=10, const=[1], novalue=True)
    roi = r.choice([None, np.zeros([0], np.float32)])
    if r.random() < .35:
        # opset 18: some axes only, and one scale for all of them
        axes = r.sample(range(len(s)), r.randint(1, len(s)))
        ax = None
        if r.random() < .75:
            a['axes'] = ax = [x - len(s) if r.random() < .3 else x for x in axes]
        else:
            axes = list(range(len(s)))
        if r.random() < .4:
            return Inst(o, [g.arr(s), roi, scales[axes]], a, opset=18, const=[1, 2], novalue=True)
        if r.random() < .6:
            a['keep_aspect_ratio_policy'] = r.choice(['stretch', 'not_larger', 'not_smaller'])
            if 0 in s:
                raise ValueError            # no ratio to keep
        return Inst(o, [g.arr(s), roi, None, np.array([r.randint(1, 9) for _ in axes], np.int64)], a, opset=18, const=[1, 2, 3], novalue=True)
    if k < .6:
        return Inst(o, [g.arr(s), roi, scales], a, const=[1, 2], novalue=True)
    sizes = np.array(s[:2] + [r.randint(1, 8) for _ in s[2:]], np.int64)
    return Inst(o, [g.arr(s), roi, r.choice([None, np.zeros([0], np.float32)]), sizes], a, const=[1, 2, 3], novalue=True)


@op('Upsample')
def _upsample(g, o):
    s = g.shape(3, 4)
    scales = [1.0 if k < 2 else g.r.choice([1.0, 1.5, 2.0, 3.0]) for k in range(len(s))]
    if g.r.random() < .3:
        return Inst(o, [g.arr(s)], {'scales': scales, 'mode': 'nearest'}, opset=7, novalue=True)
    return Inst(o, [g.arr(s), np.array(scales, np.float32)], {'mode': g.r.choice(['nearest', 'linear'])}, opset=9, const=[1], novalue=True)


def _spatial(g, n, pool=False):
    """x sizes, kernel, attributes admitting at least one window."""
    r = g.r
    ks = [r.randint(1, 3) for _ in range(n)]
    a = {}
    st = [r.randint(1, 3) for _ in range(n)]
    di = [r.randint(1, 2) for _ in range(n)]
    if r.random() < .7:
        a['strides'] = st
    else:
        st = [1] * n
    if r.random() < .35:
        a['dilations'] = di
    else:
        di = [1] * n
    x = [r.randint((k - 1) * d + 1, (k - 1) * d + 5) for k, d in zip(ks, di)]
    t = r.random()
    if t < .5:
        a['pads'] = [r.randint(0, k - 1) if pool else r.randint(0, 2) for k in ks * 2]
    elif t < .75:
        a['auto_pad'] = r.choice(['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
    return x, ks, a


def _partial_pad_window(x, ks, a):
    """ceil_mode windows that would start in the right padding: versions of the standard differ about them."""
    n = len(x)
    st, di, pd = a.get('strides', [1] * n), a.get('dilations', [1] * n), a.get('pads', [0] * 2 * n)
    for k in range(n):
        m = -(-(x[k] + pd[k] + pd[k + n] - (ks[k] - 1) * di[k] - 1) // st[k]) + 1
        if (m - 1) * st[k] >= x[k] + pd[k]:
            return True
    return False


@op('MaxPool', 'AveragePool')
def _pool(g, o):
    n = g.r.choice([1, 2, 2, 2, 3])
    x, ks, a = _spatial(g, n, True)
    if o == 'AveragePool':
        a.pop('dilations', None)
    a['kernel_shape'] = ks
    if g.r.random() < .35 and a.get('auto_pad', 'NOTSET') == 'NOTSET' and not _partial_pad_window(x, ks, a):
        a['ceil_mode'] = 1
    return Inst(o, [g.arr([g.r.randint(1, 2), g.r.randint(1, 2)] + x)], a, n=2 if o == 'MaxPool' and g.r.random() < .1 else 1)


@op('GlobalAveragePool')
def _gap(g, o):
    s = g.shape(3, 5, 3)
    if 0 in s[2:]:
        raise ValueError                    # the mean of nothing
    return Inst(o, [g.arr(s)])


@op('Expand')
def _expand(g, o):
    a, b = g.bpair()
    return Inst(o, [g.arr(a, g.dt('f32', 'i64')), np.array(b, np.int64)], const=[1])


@op('Pad')
def _pad(g, o):
    r = g.r
    s = g.shape(1, 4)
    mode = r.choice(['constant', 'constant', 'edge', 'reflect', None])
    pads = [r.randint(0, 2) if mode != 'reflect' else r.randint(0, max(0, s[k % len(s)] - 1)) for k in range(2 * len(s))]
    if mode in ('constant', None) and r.random() < .15:
        k = r.randint(0, len(s) - 1)
        if s[k] > 1:
            pads[k] = -1
    a = {} if mode is None else {'mode': mode}
    if 0 in s and mode not in ('constant', None):
        raise ValueError                    # nothing to repeat
    x = g.arr(s)
    if r.random() < .25:
        a['pads'] = pads
        if mode in ('constant', None) and r.random() < .5:
            a['value'] = 1.5
        return Inst(o, [x], a, opset=2)
    if r.random() < .25:
        axes = r.sample(range(len(s)), r.randint(1, len(s)))
        p = [pads[k] for k in axes] + [pads[k + len(s)] for k in axes]
        axes = [k - len(s) if r.random() < .3 else k for k in axes]
        return Inst(o, [x, np.array(p, np.int64), g.arr([]) if r.random() < .5 else None, np.array(axes, np.int64)], a, opset=18, const=[1, 2, 3])
    return Inst(o, [x, np.array(pads, np.int64), g.arr([]) if r.random() < .5 else None], a, opset=13, const=[1, 2])


@op('Flatten')
def _flatten(g, o):
    s = g.shape(1, 4)
    return Inst(o, [g.arr(s)], {'axis': g.r.randint(-len(s), len(s))} if g.r.random() < .8 else {})


@op('ArgMax')
def _argmax(g, o):
    s = g.shape(1, 4)
    a = {}
    if g.r.random() < .7:
        a['axis'] = g.axis(len(s))
    if g.r.random() < .5:
        a['keepdims'] = g.r.choice([0, 1])
    if g.r.random() < .3:
        a['select_last_index'] = g.r.choice([0, 1, 1])
    if s[a.get('axis', 0)] == 0:
        raise ValueError                    # the best of nothing
    return Inst(o, [g.arr(s, lo=-3, hi=3)], a)


@op('Slice')
def _slice(g, o):
    r = g.r
    s = g.shape(1, 5, 6)
    k = r.randint(1, len(s))
    axes = sorted(r.sample(range(len(s)), k))
    if r.random() < .3:
        r.shuffle(axes)
    form = r.choice(['attr', 'attr_noaxes', 3, 4, 4, 5, 5])
    if form in (3, 'attr_noaxes'):
        axes = list(range(k))
    steps = [1] * k
    if form == 5:
        steps = [r.choice([1, 2, 3, -1, -2]) for _ in range(k)]
    st, en = [], []
    for ax, p in zip(axes, steps):
        n = s[ax]
        if p > 0:
            st.append(r.choice([0, 0, r.randint(-n, n), r.randint(-n - 2, n + 2)]))
            en.append(r.choice([n, 2 ** 63 - 1, 2 ** 31 - 1, r.randint(-n, n), r.randint(-n - 2, n + 2)]))
        else:
            st.append(r.choice([-1, n - 1, r.randint(-n, n), r.randint(-n - 2, n + 2), 2 ** 31 - 1]))
            en.append(r.choice([-n - 1, -2 ** 63, r.randint(-n, n), -2 ** 31]))
    neg = [x - len(s) if r.random() < .25 else x for x in axes]
    x = g.arr(s, g.dt('f32', 'i64'))
    if form == 'attr' or form == 'attr_noaxes':
        a = dict(starts=st, ends=[min(e, 2 ** 62) for e in en])
        if form == 'attr':
            a['axes'] = neg
        i = Inst(o, [x], a, opset=9)
        i.a['ends'] = [min(e, BIG) for e in i.a['ends']]
        return i
    ins = [x, np.array(st, np.int64), np.array(en, np.int64)]
    if form in (4, 5):
        ins.append(np.array(neg, np.int64))
    if form == 5:
        ins.append(np.array(steps, np.int64))
    return Inst(o, ins, const=[1, 2, 3, 4])


@op('ReduceMean', 'ReduceSum', 'ReduceProd', 'ReduceMin', 'ReduceMax', 'ReduceL2')
def _reduce(g, o):
    r = g.r
    s = g.shape(1, 4, 3)
    axes = r.sample(range(len(s)), r.randint(1, len(s)))
    axes = [x - len(s) if r.random() < .3 else x for x in axes]
    a = {}
    if r.random() < .5:
        a['keepdims'] = r.choice([0, 1])
    x = g.arr(s, g.dt('f32', 'f32', 'i64') if o != 'ReduceL2' else 'f32', lo=-4, hi=4, q=1 if o == 'ReduceL2' else 2)
    if o == 'ReduceProd':
        x = np.clip(x, -2, 2)
    t = r.random()
    if o in ('ReduceMax', 'ReduceMin', 'ReduceMean') and 0 in (s if t < .25 or t >= .6 else [s[k] for k in axes]):
        raise ValueError                    # of no elements
    if t < .25:
        return Inst(o, [x], a, opset=11)
    if t < .6:
        a['axes'] = axes
        return Inst(o, [x], a, opset=11)
    if r.random() < .15:
        a['noop_with_empty_axes'] = 1
        return Inst(o, [x], a, opset=18)
    return Inst(o, [x, np.array(axes, np.int64)], a, opset=18, const=[1])


@op('TopK')
def _topk(g, o):
    s = g.shape(1, 3)
    a = {}
    if g.r.random() < .6:
        a['axis'] = g.axis(len(s))
    if g.r.random() < .3:
        a['largest'] = g.r.choice([0, 1])
    k = g.r.randint(1, s[a.get('axis', -1)])
    return Inst(o, [g.arr(s, lo=-50, hi=50), np.array([k], np.int64)], a, n=2, const=[1])


@op('Compress')
def _compress(g, o):
    s = g.shape(1, 3)
    a = {'axis': g.axis(len(s))} if g.r.random() < .7 else {}
    n = s[a['axis']] if a else int(np.prod(s))
    return Inst(o, [g.arr(s), g.arr([g.r.randint(1, n)], 'b')], a, const=[1])


@op('NonZero')
def _nonzero(g, o):
    return Inst(o, [g.arr(g.shape(1, 3), g.dt('f32', 'i64', 'b'), -1, 1, 1)])


@op('LSTM', 'GRU')
def _rnn(g, o):
    r = g.r
    seq, b, i, h = [r.randint(1, 4) for _ in range(4)]
    dirs = r.choice([1, 1, 2])
    gates = 4 if o == 'LSTM' else 3
    a = {'hidden_size': h}
    if dirs == 2:
        a['direction'] = 'bidirectional'
    elif r.random() < .4:
        a['direction'] = r.choice(['forward', 'reverse'])
    if r.random() < .3:
        a['layout'] = r.choice([0, 1, 1])
    ins = [g.arr([seq, b, i]), g.arr([dirs, gates * h, i]), g.arr([dirs, gates * h, h]), g.arr([dirs, 2 * gates * h]) if r.random() < .7 else None]
    return Inst(o, ins, a, n=r.choice([1, 2, 3] if o == 'LSTM' else [1, 2, 2]), const=[1, 2, 3], novalue=True)


def _conv_parts(g):
    r = g.r
    n = r.choice([1, 2, 2, 2, 3])
    x, ks, a = _spatial(g, n)
    grp = r.choice([1, 1, 2, 3])
    cpg, opg = r.randint(1, 2), r.randint(1, 2)
    if grp > 1 or r.random() < .2:
        a['group'] = grp
    if r.random() < .7:
        a['kernel_shape'] = ks
    return [r.randint(1, 2), grp * cpg] + x, [grp * opg, cpg] + ks, a


@op('Conv')
def _conv(g, o):
    x, w, a = _conv_parts(g)
    return Inst(o, [g.arr(x, lo=-4, hi=4), g.arr(w, lo=-4, hi=4), g.arr([w[0]]) if g.r.random() < .6 else None], a, const=[1, 2])


@op('ConvInteger')
def _convint(g, o):
    x, w, a = _conv_parts(g)
    return Inst(o, [g.arr(x, 'u8'), g.arr(w, 'u8')] + ([g.arr([], 'u8')] if g.r.random() < .5 else []), a, const=[1])


@op('QLinearConv')
def _qlconv(g, o):
    x, w, a = _conv_parts(g)
    d = g.dt('u8', 'i8')
    one = np.float32(1).reshape([])
    ins = [g.arr(x, 'u8'), one, np.zeros([], np.uint8), g.arr(w, 'i8'), one, np.zeros([], np.int8), one, np.zeros([], D2NP[d])]
    if g.r.random() < .5:
        ins.append(np.zeros([w[0]], np.int32))
    return Inst(o, ins, a, const=[1, 2, 3, 4, 5, 6, 7, 8], novalue=True)


@op('ConvTranspose')
def _convt(g, o):
    r = g.r
    n = r.choice([1, 2, 2, 3])
    ks = [r.randint(1, 3) for _ in range(n)]
    x = [r.randint(1, 4) for _ in range(n)]
    a = {}
    st = [1] * n
    if r.random() < .7:
        st = a['strides'] = [r.randint(1, 3) for _ in range(n)]
    if r.random() < .3:
        a['dilations'] = [r.randint(1, 2) for _ in range(n)]
    t = r.random()
    if t < .4:
        a['pads'] = [r.randint(0, 1) for _ in range(2 * n)]
    elif t < .55:
        a['auto_pad'] = r.choice(['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
    elif t < .7:
        a['output_shape'] = [s * q + r.randint(0, 2) for s, q in zip(x, st)]
        if r.random() < .5:
            a['auto_pad'] = r.choice(['SAME_UPPER', 'SAME_LOWER', 'NOTSET'])
    if r.random() < .3 and any(s > 1 for s in st) and 'output_shape' not in a and a.get('auto_pad', 'NOTSET') in ('NOTSET', 'VALID'):
        a['output_padding'] = [r.randint(0, s - 1) for s in st]
    grp = r.choice([1, 1, 2])
    if grp > 1:
        a['group'] = grp
    m = r.randint(1, 2)
    cin = grp * r.randint(1, 2)
    if 'pads' in a:                     # keep the output non-empty
        for k in range(n):
            d = a.get('dilations', [1] * n)[k]
            while st[k] * (x[k] - 1) + (ks[k] - 1) * d + 1 - a['pads'][k] - a['pads'][k + n] <= 0:
                x[k] += 1
    return Inst(o, [g.arr([r.randint(1, 2), cin] + x), g.arr([cin, m] + ks), g.arr([m * grp]) if r.random() < .5 else None], a, const=[1, 2], novalue=True)


@op('DequantizeLinear')
def _dq(g, o):
    s = g.shape(1, 4)
    d = g.dt('u8', 'i8')
    return Inst(o, [g.arr(s, d), np.float32(.5).reshape([])] + ([np.zeros([], D2NP[d])] if g.r.random() < .7 else []), {}, const=[1, 2], novalue=True) if g.r.random() < .8 else \
        Inst(o, [g.arr(s, d), np.float32(.5).reshape([])], {'output_dtype': g.r.choice([1, 10])}, opset=23, const=[1], novalue=True)


@op('QuantizeLinear')
def _ql(g, o):
    s = g.shape(1, 4)
    d = g.dt('u8', 'i8')
    if g.r.random() < .25:
        z = g.r.choice([0, 2, 3, 5])
        return Inst(o, [g.arr(s), np.float32(.5).reshape([])] + ([np.zeros([], D2NP[dict([(2, 'u8'), (3, 'i8'), (5, 'i16'), (0, d)])[z]])] if g.r.random() < .3 else []), {'output_dtype': z}, opset=21, const=[1, 2], novalue=True)
    return Inst(o, [g.arr(s), np.float32(.5).reshape([])] + ([np.zeros([], D2NP[d])] if g.r.random() < .7 else []), const=[1, 2], novalue=True)


@op('RoiAlign')
def _roi(g, o):
    s = g.shape(4, 4)
    n = g.r.randint(1, 3)
    a = {}
    if g.r.random() < .8:
        a['output_height'], a['output_width'] = g.r.randint(1, 4), g.r.randint(1, 4)
    return Inst(o, [g.arr(s), g.arr([n, 4]), np.zeros([n], np.int64)], a, novalue=True)


@op('RandomUniformLike', 'RandomNormalLike')
def _rand(g, o):
    return Inst(o, [g.arr(g.shape(1, 4), g.dt('f32', 'i64') if False else 'f32')], {'dtype': g.r.choice([1, 10, 11])} if g.r.random() < .6 else {}, novalue=True)


@op('Reshape')
def _reshape(g, o):
    r = g.r
    s = g.shape(0 if r.random() < .2 else 1, 4, zero=.04)
    n = int(np.prod(s))
    if n == 0:
        t = [r.randint(0, 3) for _ in range(r.randint(1, 3))] + [0]
        r.shuffle(t)
        if r.random() < .7:
            return Inst(o, [g.arr(s), np.array(t, np.int64)], {'allowzero': 1}, const=[1], opset=r.choice([14, 17, 21]))
        t = list(s)
        return Inst(o, [g.arr(s), np.array(t, np.int64)], {}, const=[1])
    if not s and r.random() < .3:
        return Inst(o, [g.arr(s), np.array([], np.int64)], {}, const=[1])
    t = []
    rest = n
    for _ in range(r.randint(0, 3)):
        d = r.choice([k for k in range(1, rest + 1) if rest % k == 0])
        t.append(d)
        rest //= d
    t.append(rest)
    a = {}
    if r.random() < .1:
        t = [1] * r.randint(0, 2) + t
    for k in range(len(t)):
        if k < len(s) and t[k] == s[k] and r.random() < .5:
            t[k] = 0
    if r.random() < .6:
        t[r.randint(0, len(t) - 1)] = -1
    if 0 not in t and r.random() < .1:
        a['allowzero'] = 1
    return Inst(o, [g.arr(s, g.dt('f32', 'i64')), np.array(t, np.int64)], a, const=[1])


@op('ConstantOfShape')
def _cos(g, o):
    s = g.shape(0 if g.r.random() < .1 else 1, 4)
    a = {'value': np.array([g.r.randint(-3, 3)], D2NP[g.dt('f32', 'i64', 'i32', 'b')])} if g.r.random() < .7 else {}
    return Inst(o, [np.array(s, np.int64)], a, const=[0])


@op('Constant')
def _const(g, o):
    r = g.r
    k = r.random()
    if k < .15:
        return Inst(o, [], {'value_int': r.randint(-9, 9)})
    if k < .3:
        return Inst(o, [], {'value_ints': [r.randint(-9, 9) for _ in range(r.randint(1, 4))]})
    if k < .45:
        return Inst(o, [], {'value_float': r.randint(-12, 12) / 4})
    if k < .6:
        return Inst(o, [], {'value_floats': [r.randint(-12, 12) / 4 for _ in range(r.randint(1, 4))]})
    return Inst(o, [], {'value': g.arr(g.shape(0, 3), g.dt('f32', 'i64', 'i32', 'b'))})


@op('Range')
def _range(g, o):
    d = g.dt('i64', 'f32', 'i32')
    dl = g.arr([], d, 1, 3, 2)
    if g.r.random() < .3:
        dl = -dl
    lo, hi = g.arr([], d, -6, 6, 2), g.arr([], d, -6, 6, 2)
    if g.r.random() < .7 and (hi - lo) * dl < 0:
        lo, hi = hi, lo
    return Inst(o, [np.asarray(lo), np.asarray(hi), np.asarray(dl)], const=[0, 1, 2])


@op('Split')
def _split(g, o):
    r = g.r
    s = g.shape(1, 4, 6)
    a = {}
    if r.random() < .8:
        a['axis'] = g.axis(len(s))
    ax = a.get('axis', 0)
    n = r.randint(1, 3)
    t = r.random()
    x = g.arr(s, g.dt('f32', 'i64'))
    if t < .25:
        s[ax] = n * r.randint(1, 3)
        return Inst(o, [g.arr(s, 'f32')], a, n=n, opset=13)
    if t < .5:
        n = a['num_outputs'] = r.choice([1, 2, 2, 3, 3, 4])
        s[ax] = r.randint(1, 9)
        while s[ax] - (-(-s[ax] // n)) * (n - 1) <= 0:
            s[ax] += 1
        return Inst(o, [g.arr(s, 'f32')], a, n=n, opset=18)
    sizes = [r.randint(0 if r.random() < .1 else 1, 3) for _ in range(n)]
    s[ax] = sum(sizes)
    if t < .7:
        a['split'] = sizes
        return Inst(o, [g.arr(s, 'f32')], a, n=n, opset=11)
    return Inst(o, [g.arr(s, 'f32'), np.array(sizes, np.int64)], a, n=n, opset=13, const=[1])


# operators whose operands have to fit together: any other combination must be refused
STRICT = ['Add', 'Sub', 'Mul', 'Div', 'Pow', 'Mod', 'Min', 'Max', 'Sum', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'And', 'Or',
          'Xor', 'Where', 'MatMul', 'MatMulInteger', 'QLinearMatMul', 'Gemm', 'Concat', 'Conv', 'ConvInteger', 'QLinearConv', 'Reshape', 'Expand',
          'Split', 'Squeeze', 'Einsum']


def mutants(r, per_op, ops=None):
    """Instances with the shape of one operand changed; the specification says whether they are still admissible."""
    g = Gen(r)
    for o in ops or STRICT:
        n = 0
        while n < per_op:
            i = OPS[o](g, o)
            ks = [k for k, x in enumerate(i.ins) if x is not None and x.ndim and (k not in i.const or o in ('Conv', 'ConvInteger', 'QLinearConv')
                                                                                  and x.ndim > 1)]
            if not ks:
                continue
            k = r.choice(ks)
            s = list(i.ins[k].shape)
            t = r.random()
            j = r.randint(0, len(s) - 1)
            if t < .6:
                s[j] += 1
            elif t < .8:
                s[j] += r.randint(2, 3)
            elif t < .9 and s[j] > 1:
                s[j] -= 1
            elif o not in ('Conv', 'ConvInteger', 'QLinearConv', 'Einsum'):
                s = s[:j] + [r.randint(2, 3)] + s[j:]
            i.ins[k] = g.arr(s, dtype_name(i.ins[k].dtype))
            i.refuse = True
            n += 1
            yield i


def instances(r, per_op, ops=None):
    g = Gen(r)
    for o in sorted(ops or OPS):
        n = 0
        while n < per_op:
            g.zero = .3 if r.random() < .05 else .0
            try:
                i = OPS[o](g, o)
            except (ValueError, ZeroDivisionError, IndexError):
                if g.zero:
                    continue                # an operand of no elements does not do here
                raise
            if r.random() < .06:
                trail(i)
            n += 1
            yield i
    g.zero = .0


def trail(i):
    """Write an optional last input the node does not have as an empty name."""
    try:
        sch = onnx.defs.get_schema(i.op, i.opset, i.domain)
    except Exception:
        return
    if len(i.ins) < len(sch.inputs) and sch.inputs[len(i.ins)].option == onnx.defs.OpSchema.FormalParameterOption.Optional:
        i.ins.append(None)
