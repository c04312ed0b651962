"""C20: the binary files of graphs, shape engines and memory plans."""
import os, struct, tempfile
from fractions import Fraction
import numpy as np
import onnx
from onnx import helper, numpy_helper
import check_c02 as c2
import check_c12 as c12
import modelgen as mg
import vlib
from vlib import call

ot = vlib.import_repo()
from onnx_tool import serialization as ser
DT = {'float32': 'f32', 'float16': 'f16', 'int32': 'i32', 'int8': 'i8', 'uint8': 'u8', 'int64': 'i64', 'float64': 'f64', 'int16': 'i16', 'uint16': 'u16'}


def text(s):
    return list(s if isinstance(s, bytes) else s.encode('utf-8', 'surrogatepass'))


def integer(i):
    i = int(i)
    return list(i.to_bytes(8, 'little', signed=True)) if -2**63 <= i < 2**63 else []


def real(x):
    return list(struct.pack('<d', float(x)))


def attr(a):
    A = onnx.AttributeProto
    one = {A.INT: ('int', lambda: [integer(a.i)]), A.FLOAT: ('float', lambda: [real(a.f)]), A.STRING: ('text', lambda: [text(a.s)]),
           A.INTS: ('int', lambda: [integer(x) for x in a.ints]), A.FLOATS: ('float', lambda: [real(x) for x in a.floats]),
           A.STRINGS: ('text', lambda: [text(x) for x in a.strings])}.get(a.type)
    return dict(n=text(a.name), k=one[0] if one else 'other', v=one[1]() if one else [[0]])


def node(key, nd):
    """nd: the ONNX node."""
    return dict(n=text(key), op=text(nd.op_type), i=[text(x) for x in nd.input], o=[text(x) for x in nd.output], at=[attr(a) for a in nd.attribute])


def weight(n, a):
    d = DT.get(a.dtype.name, 'other') if a is not None and a.dtype.byteorder != '>' else 'other'
    return dict(n=text(n), d=d, s=list(a.shape) if a is not None else [], raw=list(a.tobytes()) if d != 'other' else [])


def write(r, d, what, x, fn, sig, evals=None):
    f = os.path.join(d, 'file')
    before = None
    if os.path.exists(f):
        os.unlink(f)
    if r.random() < .3:
        before = b'what was there before'
        with open(f, 'wb') as h:
            h.write(before)
    ok, _, err = call(fn, f)
    now = open(f, 'rb').read() if os.path.exists(f) else None
    wrote = now is not None and now != before
    return dict(sig=sig, rec=dict(what=what, x=x, ok=ok, err=err, wrote=wrote, b=list(now) if wrote and ok else [], evals=evals(now) if evals and ok and wrote else []))


# ------------------------------------------------------------------------------ graphs
def graph_case(r, d, g, x, sig):
    return write(r, d, 'graph', x, lambda f: (ot.serialize_graph if r.random() < .5 else ser.serialize_graph)(g, f), sig)


class Loose(c2.Loose):
    """Mostly what the format can hold, and now and then what it cannot."""
    def __init__(self, r):
        super().__init__(r)
        self.plain = r.random() < .75

    def attr(self, name, scope):
        while True:
            a = super().attr(name, scope)
            if not self.plain or (a.type in (a.INT, a.FLOAT, a.STRING, a.INTS, a.FLOATS, a.STRINGS) and b'\0' not in a.s
                                  and abs(a.i) < 2**31 and all(abs(i) < 2**31 for i in a.ints)):
                if a.type == a.INT and self.r.random() < .4:
                    a.i = self.r.choice([-1, 255, 256, 2**31 - 1, -2**31, -129, 65536])
                if a.type == a.FLOAT and self.r.random() < .3:
                    a.f = self.r.choice([float('inf'), -float('inf'), float('nan'), 1e-45, -0., 1.17549435e-38, 3.4028235e38])
                return a

    def model(self):
        m = super().model()
        if self.plain:
            keep = [t for t in m.graph.initializer if c2.TYPES[t.data_type] in ('f32', 'f16', 'i32', 'i8', 'u8', 'i64')]
            gone = {t.name for t in m.graph.initializer} - {t.name for t in keep}
            del m.graph.initializer[:]
            m.graph.initializer.extend(keep)
            for n in gone:
                m.graph.initializer.append(numpy_helper.from_array(np.arange(2, dtype=self.r.choice([np.float32, np.int64, np.uint8])), n))
        return m


def loose(r, d):
    m = Loose(r).model()
    ok, g, err = call(lambda: ot.Model(m).graph)
    if not ok:
        return None
    if len(g.nodemap) != len(m.graph.node):
        return None
    x = dict(nodes=[node(k, p) for k, p in zip(g.nodemap, m.graph.node)],
             weights=[weight(t.name, numpy_helper.to_array(t)) for t in m.graph.initializer])
    return graph_case(r, d, g, x, 'graph ' + ';'.join(f'{n.op_type}({",".join(n.input)}) ' + ','.join(f'{a.name}:{attr(a)["k"]}{"" if a.type in (a.GRAPH, a.TENSOR) else str(helper.get_attribute_value(a))[:40]}' for a in n.attribute) for n in m.graph.node)
                      + ' weights ' + ','.join(f'{c2.TYPES[t.data_type]}{list(t.dims)}' for t in m.graph.initializer))


def computed(r, d):
    b = mg.ModelGen(r)
    b.build(sinks=r.randint(0, 3), datas=r.randint(1, 5))
    m = b.model('sym')
    if not b.nodes or not b.outputs:
        return []
    how = r.choice(['loaded', 'inferred', 'compute', 'fused', 'sharded'])

    def go():
        g = ot.Model(m).graph
        g.graph_reorder_nodes()
        if how != 'loaded':
            g.shape_infer(b.feed(r.randrange(b.na)))
        if how in ('compute', 'fused'):
            g.profile()
            g = g.get_compute_graph()
        if how == 'fused' and len(g.nodemap) > 1:
            names = list(g.nodemap)
            k = r.randrange(len(names) - 1)
            g.fuse_subgraph_node_names(names[k:k + 2], 'Fused', 'fused', keep_attr=r.random() < .8)
        # what there is, in terms of ONNX
        x = dict(nodes=[node(k, nd.make_nodeproto()) for k, nd in g.nodemap.items()],
                 weights=[weight(n, g.tensormap[n].numpy) for n in dict.fromkeys(g.initials)])
        return g, x
    ok, res, err = call(go)
    if not ok:
        return []
    g, x = res
    out = [graph_case(r, d, g, x, f'{how} ' + b.sig())]
    if how in ('compute', 'inferred') and r.random() < .5:
        ok, mem, err = call(g.compress_memory)
        if ok:
            mx = {v: r.choice([1, 224, 2**31, 2**40]) for v in r.sample(['h', 'w', 'batch', 'ü'], r.randint(0, 3))}
            out.append(plan_case(r, d, mem, mx, f'plan of {how} ' + b.sig()))
    return out


# ------------------------------------------------------------------------------ engines
def floor_ceil(q, mode):
    return q.__floor__() if mode else q.__ceil__()


def decode_exprs(b):
    """Coefficients at the end of the file, as a reader would use them."""
    p = 0

    def i4():
        nonlocal p
        p += 4
        return struct.unpack_from('<i', b, p - 4)[0]

    def s():
        nonlocal p
        e = b.index(b'\0', p)
        v = b[p:e].decode()
        p = e + 1
        return v
    for _ in range(i4()):
        s()
    for _ in range(i4()):
        s()
        for _ in range(i4()):
            s() if i4() == 2 else i4()
    out = []
    for _ in range(i4()):
        n, src = s(), s()
        al, be = struct.unpack_from('<ff', b, p)
        p += 8
        out.append((n, src, al, be, i4(), i4()))
    return out


def engine_state(se):
    def dim(v):
        return dict(k='int', v=integer(v)) if isinstance(v, int) else dict(k='text', v=text(v)) if isinstance(v, str) else dict(k='other', v=[])
    return dict(vars=[text(v) for v in se.variables], descs=[dict(n=text(n), v=[dim(v) for v in ds]) for n, ds in se.tensor_desc.items()],
                exprs=[dict(n=text(n), src=text(e[0]), alpha=real(e[1].alpha), beta=real(e[1].beta), factor=integer(e[1].factor), trunc=integer(e[1].truncmode))
                       for n, e in se.tensor_epxr.items()])


def engine(r, d):
    mp, desc, var = c12.build(r)
    given = {k: list(v) for k, v in desc.items()}
    ok, se, err = call(lambda: ot.Model(mp).graph.shape_regress(given, {v: list(x) for v, x in var.items()}))
    if not ok:
        return None

    def evals(b):
        try:
            got = decode_exprs(b)
        except Exception:
            return []
        out = []
        for n, src, al, be, fac, tr in got:
            e = se.tensor_epxr.get(n)
            if e is None or not (np.isfinite(al) and np.isfinite(be)) or (fac and al == 0):
                continue
            lo, hi = var.get(e[0], (1, 32))
            for x in range(lo, hi + 1, max(1, (hi - lo) // 12)):
                al_, be_ = Fraction(al), Fraction(be)
                out.append(dict(m=int(e[1](x)), f=floor_ceil(x / al_ + be_ if fac else al_ * x + be_, tr)))
        return out
    return write(r, d, 'engine', engine_state(se), lambda f: ot.serialize_shape_engine(se, f), f'engine {desc} {var} ' + ' '.join(n.op_type for n in mp.graph.node), evals)


def made_engine(r, d):
    names = ['h', 'w', '', 'ü', 'a b', 'long' * 9, 'x_1'] + (['a\0b'] if r.random() < .1 else [])
    se = ot.graph.ShapeEngine({})
    for _ in range(r.randint(0, 3)):
        se.update_variable(r.choice(names), r.randint(0, 9))
    dims = [0, 1, -1, 224, 2**31 - 1, -2**31] + ([2**31, 2**70] if r.random() < .15 else [])
    for _ in range(r.randint(0, 3)):
        se.add_tensor_desc(r.choice(names), [r.choice(dims) if r.random() < .6 else r.choice(names) for _ in range(r.randint(0, 4))])
    for _ in range(r.randint(0, 3)):
        e = ot.graph.ValueExpr([1, 2], [1, 2])
        e.alpha, e.beta = (r.choice([0, 1, -3, .5, 1 / 3, 16777217, 2.5e-8, 100.015625]) for _ in 'ab')
        e.factor, e.truncmode = r.choice([0, 1]), r.choice([0, 1])
        if r.random() < .05:
            e.beta = 1e39
        se.add_expr(r.choice(names), r.choice(names), e)
    x = engine_state(se)
    return write(r, d, 'engine', x, lambda f: ot.serialize_shape_engine(se, f), f'made engine {se.variables} {se.tensor_desc} {[(n, e[0], e[1].alpha, e[1].beta) for n, e in se.tensor_epxr.items()]}')


# -------------------------------------------------------------------------------- plans
def plan_case(r, d, mem, mx, sig):
    x = dict(total=integer(mem[1]), blocks=[dict(n=text(n), off=integer(b[0]), len=integer(b[1])) for n, b in mem[0].items()],
             maxs=[dict(n=text(n), v=integer(v)) for n, v in mx.items()])
    return write(r, d, 'plan', x, lambda f: ser.serialize_memory_compression(mem, mx, f), sig + f' {mx}')


def made_plan(r, d):
    big = [0, 1, 64, 2**31, 2**32 + 5, 2**62, 2**63 - 1] + ([2**63, -2**63 - 1] if r.random() < .1 else [])
    names = ['a', '', 'ü/x:0', 'x' * 300, 'a b'] + (['n\0m'] if r.random() < .1 else [])
    mem = ({r.choice(names): [r.choice(big), r.choice(big)] for _ in range(r.randint(0, 5))}, r.choice(big))
    mx = {r.choice(names): r.choice(big) for _ in range(r.randint(0, 3))}
    return plan_case(r, d, mem, mx, f'made plan {mem[0]} {mem[1]}')


def made_graph(r, d):
    """Attribute values set by hand (as fusing passes do)."""
    m = helper.make_model(helper.make_graph([helper.make_node('Relu', ['x'], ['t'], name='a'), helper.make_node('Add', ['t', 'w'], ['y'], name='b')], 'g',
                                            [helper.make_tensor_value_info('x', 1, [1, 2])], [helper.make_tensor_value_info('y', 1, [1, 2])],
                                            [numpy_helper.from_array(np.arange(2, dtype=np.float32), 'w')]))
    g = ot.Model(m).graph
    vals = [('int', 7), ('int', [1, -2]), ('float', .5), ('float', [.5, -0.]), ('text', 'relu'), ('text', b'raw\xff'), ('text', ['a', '', 'b']), ('int', []), ('text', ''),
            ('int', True), ('float', [1.5] * 20), ('text', 'ü'), ('int', (3, 4)), ('other', np.arange(4.)), ('other', {'a': 1}), ('other', [np.zeros(2)]), ('other', [[1, 2], [3]]),
            ('text', 'a\0b'), ('text', b'a\0'), ('int', 2**31), ('int', [1, 2**40]), ('float', 1e39), ('mixed', [1, 2.5]), ('mixed', [1, 'a']), ('none', None), ('none', None)]
    ats, sig = {'a': {}, 'b': {}}, []
    for _ in range(r.randint(1, 3)):
        k, v = r.choice(vals)
        nd, name = r.choice('ab'), r.choice(['p', 'q', 'ü'])
        g.nodemap[nd].set_attr(name, v)
        sig.append(f'{nd}.{name}={v!r}'[:60])
        if v is None:                          # not set
            ats[nd].pop(name, None)
            continue
        l = list(v) if isinstance(v, (list, tuple)) else [v]
        ats[nd][name] = dict(n=text(name), k='other' if k == 'mixed' else k, v=[{'int': integer, 'float': real, 'text': text}.get(k, lambda _: [0])(e) for e in l])
    if r.random() < .3:                       # weights in every memory layout
        w = r.choice([np.arange(6, dtype=np.float32).reshape(2, 3).T, np.arange(8, dtype=np.int64)[::2], np.arange(4, dtype='>f4'), np.float16(2.5).reshape(()), np.zeros((0, 3), np.uint8),
                      np.arange(3, dtype=np.float64), np.array([True, False]), np.arange(3, dtype=np.int16), np.arange(3, dtype=np.complex64), np.array(['a'])])
        g.tensormap['w'].numpy = w
        sig.append(f'w={w.dtype}{w.shape}')
    x = dict(nodes=[dict(n=text(k), op=text(n.op_type), i=[text(i) for i in n.input], o=[text(o) for o in n.output], at=list(ats[k].values())) for k, n in g.nodemap.items()],
             weights=[weight('w', g.tensormap['w'].numpy)])
    return graph_case(r, d, g, x, 'made graph ' + ' '.join(sig))


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_BinFile', workers=8, timeout=850, consts=dict(MaxSteps=3 if T else 2))
    r = vlib.rng('c20')
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c20_') as d:
        for n, fn, name in ((900, loose, 'any graph'), (200, computed, 'processed graph'), (250, made_graph, 'attributes set by hand'), (50, engine, 'engine'),
                            (250, made_engine, 'made engine'), (150, made_plan, 'made plan')):
            for _ in range(n * (8 if T else 1)):
                c = fn(r, d)
                for x in c if isinstance(c, list) else [c] if c else []:
                    cases.append(x)
                    k = f"{name} ({'written' if x['rec']['ok'] else 'refused'})"
                    chk.actions[k] = chk.actions.get(k, 0) + 1
    chk.validate('T_BinFile', cases, shard=60)
    chk.assumptions += ['a single value and a list of one value have the same encoding; graph inputs and outputs are not part of the file']
