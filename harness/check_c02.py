"""C02: a saved file owes the model it was loaded from everything the format keeps."""
import os, pathlib, struct, tempfile
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
import modelgen as mg
import opsdrv as od
import vlib
from vlib import call

ot = vlib.import_repo()
TYPES = {TP.FLOAT: 'f32', TP.DOUBLE: 'f64', TP.FLOAT16: 'f16', TP.INT8: 'i8', TP.INT16: 'i16', TP.INT32: 'i32', TP.INT64: 'i64', TP.UINT8: 'u8',
         TP.UINT16: 'u16', TP.UINT32: 'u32', TP.UINT64: 'u64', TP.BOOL: 'b', TP.BFLOAT16: 'bf16', TP.STRING: 'str', TP.FLOAT8E4M3FN: 'f8e4m3fn', TP.FLOAT8E5M2: 'f8e5m2'}
WIDTH = dict(f32=4, f64=8, f16=2, i8=1, i16=2, i32=4, i64=8, u8=1, u16=2, u32=4, u64=8, b=1, bf16=2, f8e4m3fn=1, f8e5m2=1)
FIELD = dict(f32='float_data', f64='double_data', i64='int64_data', u32='uint64_data', u64='uint64_data')
CODE = dict(float_data='<f', double_data='<d', int64_data='<q', uint64_data='<Q', int32_data='<i')


# ---------------------------------------------------------------- projection of a file
def decl(shape):
    return ['r', [str(x) for x in shape]]


def wire(t):
    d = TYPES.get(t.data_type, f'?{t.data_type}')
    r = dict(n=t.name, d=d, s=list(t.dims), decl=decl(t.dims), raw=list(t.raw_data), w=[])
    if d == 'str':
        r['w'] = [x.hex() for x in t.string_data]
    elif not r['raw']:
        f = FIELD.get(d, 'int32_data')
        r['w'] = [list(struct.pack(CODE[f], x)) for x in getattr(t, f)]
    return r


def vinfo(v):
    tt = v.type.tensor_type
    if not tt.HasField('shape'):
        s = ['?']
    else:
        s = ['r', [str(x.dim_value) if x.HasField('dim_value') else '$' + x.dim_param if x.HasField('dim_param') and x.dim_param else '?' for x in tt.shape.dim]]
    return dict(n=v.name, d=TYPES.get(tt.elem_type, '' if tt.elem_type == 0 else f'?{tt.elem_type}'), s=s)


def outer(g):
    made = {t.name for t in g.initializer} | {i.name for i in g.input}
    out = []
    for nd in g.node:
        out += [i for i in nd.input if i and i not in made]
        for a in nd.attribute:
            out += [x for s in ([a.g] if a.type == a.GRAPH else a.graphs) for x in outer(s) if x not in made]
        made |= set(nd.output)
    return out + [o.name for o in g.output if o.name not in made]


def attr(a):
    k = onnx.AttributeProto.AttributeType.Name(a.type).lower()
    if a.type == a.TENSOR:
        w = wire(a.t)
        w['n'] = ''
        return dict(n=a.name, k=k, v=w)
    x = onnx.AttributeProto()
    x.CopyFrom(a)
    x.name = ''
    x.doc_string = ''
    return dict(n=a.name, k=k, v=x.SerializeToString().hex())


def proto(m):
    g = m.graph
    return dict(nodes=[dict(n=n.name, op=n.op_type, dom=n.domain, i=list(n.input), o=list(n.output), at=[attr(a) for a in n.attribute],
                            sub=sorted({x for a in n.attribute for s in ([a.g] if a.type == a.GRAPH else a.graphs) for x in outer(s)})) for n in g.node],
                inputs=[vinfo(v) for v in g.input], outputs=[vinfo(v) for v in g.output], inits=[wire(t) for t in g.initializer],
                infos=[vinfo(v) for v in g.value_info], opset=[dict(dom=o.domain, v=o.version) for o in m.opset_import])


# ------------------------------------------------------------------------- generation
def tensor(r, name, tp, dims, how):
    """A tensor proto in a chosen encoding."""
    d = TYPES[tp]
    n = int(np.prod(dims))
    t = TP(name=name, data_type=tp, dims=dims)
    if d == 'str':
        t.string_data.extend([r.choice([b'', b'a', b'hello world', 'ä'.encode(), b'a\x00b']) for _ in range(n)])
        return t
    w = WIDTH[d]
    els = []
    for _ in range(n):
        b = bytes(r.choice([0, 1, 2, 63, 127, 128, 254, 255, r.randrange(256)]) for _ in range(w))
        if d == 'b':
            b = bytes([r.randrange(2)])
        elif d in ('f32', 'f64', 'f16', 'bf16'):      # finite values only (a NaN has many bit patterns)
            x = r.choice([0., 1., -1., .5, r.uniform(-9, 9), 3e-5, -65504.])
            b = {'f32': lambda: struct.pack('<f', x), 'f64': lambda: struct.pack('<d', x), 'f16': lambda: struct.pack('<e', x),
                 'bf16': lambda: struct.pack('<f', x)[2:]}[d]()
        elif d.startswith('f8'):
            b = bytes([r.choice([0, 1, 8, 56, 64, 128, 184])])
        els.append(b)
    if how == 'raw' or n == 0:
        t.raw_data = b''.join(els)
        return t
    f = FIELD.get(d, 'int32_data')
    for b in els:
        if f == 'int32_data':
            x = int.from_bytes(b, 'little', signed=d.startswith('i'))
        elif f == 'uint64_data':
            x = int.from_bytes(b, 'little')
        elif f == 'int64_data':
            x = int.from_bytes(b, 'little', signed=True)
        else:
            x = struct.unpack(CODE[f], b)[0]
        getattr(t, f).append(x)
    return t


def reencode(r, t):
    """The same tensor in another encoding."""
    d = TYPES.get(t.data_type)
    if d is None or d == 'str' or not t.raw_data:
        return
    w = WIDTH[d]
    els = [t.raw_data[i:i + w] for i in range(0, len(t.raw_data), w)]
    if r.random() < .5:
        t.ClearField('raw_data')
        f = FIELD.get(d, 'int32_data')
        for b in els:
            getattr(t, f).append(struct.unpack(CODE[f], b)[0] if f in ('float_data', 'double_data') else
                                 int.from_bytes(b, 'little', signed=d.startswith('i')))


class Loose:
    """Well-formed models of operators the tool knows nothing about: any attribute, any type, any wiring."""
    def __init__(self, r):
        self.r, self.k = r, 0
        self.types = [t for t in TYPES if t != TP.STRING]

    def name(self, p):
        self.k += 1
        return p + str(self.k) + self.r.choice(['', '', '.w', '/x:0', ' y'])

    def dims(self, r):
        return [r.choice([1, 2, 3, 'N', None, 0 if r.random() < .1 else 4]) for _ in range(r.choice([0, 1, 2, 3, 4]))]

    def attr(self, name, scope):
        r = self.r
        k = r.choice(['int', 'float', 'string', 'tensor', 'ints', 'floats', 'strings', 'graph', 'empty', 'type'])
        a = onnx.AttributeProto(name=name)
        if k == 'int':
            a.type, a.i = a.INT, r.choice([0, 1, -1, 2**40, -2**63, 2**63 - 1])
        elif k == 'float':
            a.type, a.f = a.FLOAT, r.choice([0., 1., .1, -2.5, 3.0e38])
        elif k == 'string':
            a.type, a.s = a.STRING, r.choice([b'', b'constant', 'ü'.encode(), b'\xff\x00'])
        elif k == 'tensor':
            a.type = a.TENSOR
            a.t.CopyFrom(tensor(r, r.choice(['', 'v']), r.choice(list(TYPES)), r.choice([[], [1], [2, 2], [0]]), r.choice(['raw', 'typed'])))
        elif k == 'ints':
            a.type = a.INTS
            a.ints.extend([r.choice([0, 1, -1, 2**33]) for _ in range(r.randint(1, 3))])
        elif k == 'floats':
            a.type = a.FLOATS
            a.floats.extend([r.choice([0., 1., 2., .3]) for _ in range(r.randint(1, 3))])
        elif k == 'strings':
            a.type = a.STRINGS
            a.strings.extend([r.choice([b'a', b'', b'relu']) for _ in range(r.randint(1, 3))])
        elif k == 'empty':
            a.type = r.choice([a.INTS, a.FLOATS, a.STRINGS])
        elif k == 'type':
            a.type = a.TYPE_PROTO
            a.tp.CopyFrom(helper.make_tensor_type_proto(TP.FLOAT, [1, 2]))
        else:
            a.type = a.GRAPH
            x = r.choice(scope)
            a.g.CopyFrom(helper.make_graph([helper.make_node('Neg', [x], ['b_' + name], name='inner')], 'body', [],
                                           [helper.make_tensor_value_info('b_' + name, TP.FLOAT, None)]))
        return a

    def model(self):
        r = self.r
        inputs = [helper.make_tensor_value_info(self.name('in'), r.choice(self.types), None if r.random() < .15 else self.dims(r)) for _ in range(r.randint(1, 3))]
        inits = [tensor(r, self.name('w'), r.choice(list(TYPES)), r.choice([[], [1], [3], [2, 2], [1, 2, 1, 2], [0, 2]]), r.choice(['raw', 'typed'])) for _ in range(r.randint(0, 4))]
        avail = [v.name for v in inputs] + [t.name for t in inits]
        nodes, made = [], []
        for _ in range(r.randint(1, 5)):
            ins = [r.choice(avail) if r.random() < .85 else '' for _ in range(r.randint(0, 4))]
            outs = [self.name('t') if k == 0 or r.random() < .8 else '' for k in range(r.choice([1, 1, 2, 3]))]
            nd = onnx.NodeProto(name='' if r.random() < .2 else self.name('n'), op_type=r.choice(['Foo', 'Bar', 'FancyOp', 'Attention', 'Relu', 'Concat']),
                                domain=r.choice(['', '', 'com.microsoft', 'my.domain']), input=ins, output=outs)
            names = r.sample(['alpha', 'beta', 'mode', 'axis', 'values', 'k', 'to', 'axes', 'shape', 'constant', 'name', 'input', 'domain', 'op_type', 'output', 'doc_string'],
                             r.choice([0, 0, 1, 2, 3]))
            if nd.op_type in ('Relu', 'Concat', 'Attention'):
                names = [n for n in names if n in ('alpha', 'beta', 'mode', 'k')]
            for n in names:
                nd.attribute.append(self.attr(n, avail + made))
            nodes.append(nd)
            made += [o for o in outs if o]
            avail += [o for o in outs if o]
        used = {i for n in nodes for i in n.input}
        outs = [o for o in made if o not in used]
        outs += [o for o in made if o in used and r.random() < .2]
        if r.random() < .08:
            outs.append(inputs[0].name)
        if inits and r.random() < .12:      # a weight handed on as a result
            outs.append(r.choice(inits).name)
        r.shuffle(outs)
        byname = {t.name: helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)) for t in inits}
        byname[inputs[0].name] = inputs[0]
        infos = [helper.make_tensor_value_info(o, r.choice(self.types), r.choice([None, [], [1, 2], ['N', None]])) for o in made if o not in outs and r.random() < .4]
        g = helper.make_graph(nodes, 'g', inputs, [helper.make_tensor_value_info(o, r.choice(self.types), r.choice([None, [], [2], ['N', 3], [None]]))
                                                   if o not in byname else byname[o] for o in outs], inits, value_info=infos)
        if r.random() < .2:                 # older models list initializers as inputs
            g.input.extend([helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)) for t in inits])
        ops = [helper.make_opsetid('', r.choice([11, 13, 17, 21]))] + [helper.make_opsetid(d, r.randint(1, 3)) for d in sorted({n.domain for n in nodes if n.domain})]
        if r.random() < .3:
            r.shuffle(ops)
        return helper.make_model(g, opset_imports=ops)


def load_save(r, d, m, o, infer=None):
    src, dst, again = (os.path.join(d, x) for x in ('a.onnx', 'b.onnx', 'c.onnx'))
    for f in (dst, again):
        if os.path.exists(f):
            os.unlink(f)
    onnx.save_model(m, src)
    how = r.choice(['str', 'path', 'proto'])
    rec = dict(o=dict(o, inferred=infer is not None), m=proto(m), f=None, again=None, shapes=[], twice=not o['shape_only'])

    def go():
        mm = ot.Model(src if how == 'str' else pathlib.Path(src) if how == 'path' else onnx.load_model(src), dict(verbose=False))
        if infer is not None:
            mm.graph.shape_infer(infer)
            rec['shapes'] = [dict(n=n, s=decl(vlib.dims(t.shape)), d=od.dtype_name(np.dtype(t.dtype))) for n, t in mm.graph.tensormap.items()
                             if n in mm.graph.dynamics]
        mm.save_model(dst, shape_only=o['shape_only'], no_shape=o['no_shape'])
        rec['f'] = proto(onnx.load_model(dst))
        if rec['twice']:
            m2 = ot.Model(dst, dict(verbose=False))
            m2.save_model(again, no_shape=o['no_shape'])
            rec['again'] = proto(onnx.load_model(again))
    ok, _, err = call(go)
    rec.update(ok=ok, err=err)
    empty = dict(nodes=[], inputs=[], outputs=[], inits=[], infos=[], opset=[])
    rec['f'], rec['again'] = rec['f'] or empty, rec['again'] or empty
    return rec


OPTIONS = [dict(shape_only=a, no_shape=b) for a in (False, True) for b in (False, True)]


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Proto', workers=4, expect_actions=('Infer', 'Save'))
    r = vlib.rng('c02')
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c02_') as d:
        # every type in every encoding
        for tp in TYPES:
            for how in ('raw', 'typed'):
                for dims in ([], [3], [2, 2], [0], [1, 2, 3]):
                    t = tensor(r, 'w', tp, dims, how)
                    g = helper.make_graph([helper.make_node('Foo', ['x', 'w'], ['y'], name='n', domain='my')], 'g',
                                          [helper.make_tensor_value_info('x', tp, [1, 'N'])], [helper.make_tensor_value_info('y', tp, [1])], [t])
                    o = r.choice(OPTIONS)
                    rec = load_save(r, d, helper.make_model(g, opset_imports=[helper.make_opsetid('', 17), helper.make_opsetid('my', 1)]), o)
                    cases.append(dict(sig=f'type {TYPES[tp]} {how} {dims} {o}', rec=rec))
        # any structure
        for k in range(20000 if T else 900):
            m = Loose(r).model()
            o = r.choice(OPTIONS)
            rec = load_save(r, d, m, o)
            cases.append(dict(sig=f'loose {k} ' + ','.join(n.op_type + '/' + '+'.join(a.name for a in n.attribute) for n in m.graph.node) + f' {o}', rec=rec))
            chk.actions['loose'] = chk.actions.get('loose', 0) + 1
        # executable models, before and after shape inference
        for k in range(2500 if T else 250):
            g = mg.ModelGen(r)
            g.build(sinks=r.randint(0, 3), datas=r.randint(1, 5))
            g.listed = r.random() < .2
            m = g.model(r.choice(['sym', 'unknown', 'fixed']))
            if not g.nodes or not g.outputs:
                continue
            for t in m.graph.initializer:
                reencode(r, t)
            prod = [x for n in m.graph.node for x in n.output if x and x not in g.outputs]
            for x in prod:
                if r.random() < .3:
                    m.graph.value_info.append(helper.make_tensor_value_info(x, od.D2TP[g.dt(x)], ['a'] * g.rank(x)))
            o = r.choice(OPTIONS)
            inf = g.feed(r.randrange(g.na)) if r.random() < .6 else None
            rec = load_save(r, d, m, o, inf)
            chk.actions['inferred' if inf is not None else 'as loaded'] = chk.actions.get('inferred' if inf is not None else 'as loaded', 0) + 1
            cases.append(dict(sig=('inferred ' if inf is not None else '') + g.sig() + f' {o}', rec=rec))
    chk.validate('T_Model', cases, shard=100)
    chk.assumptions += ['tensor-typed values only (no sequences or optionals); functions, doc strings and metadata are not part of what is kept']
