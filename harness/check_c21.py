"""C21: weight quantization."""
import math
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
import vlib
from vlib import call

ot = vlib.import_repo()
from onnx_tool import quantization as Q


def real(v):
    """[m, e]: v = m * 2**e with a mantissa of 24 bits"""
    v = float(v)
    if v == 0:
        return dict(m=0, e=0)
    if not math.isfinite(v):
        return dict(m=2 ** 24 - 1, e=1000)
    f, e = math.frexp(v)
    m = round(f * 2 ** 24)
    return dict(m=m, e=e - 24) if abs(m) < 2 ** 24 else dict(m=m // 2, e=e - 23)


def weight(r, R, C, dtype):
    """A matrix whose rows (and columns) are of different kinds."""
    def vec(n):
        k = r.random()
        mag = 2.0 ** r.choice([0, 0, 0, -3, 5, -12, 14] if dtype == np.float16 else [0, 0, 0, -3, 5, -20, 20, -60, 60, -120, 120])
        if k < .08:
            return [0.] * n
        if k < .16:
            return [r.choice([-1, 1]) * r.uniform(.5, 1) * mag] * n
        if k < .24:
            return [r.uniform(.1, 1) * mag for _ in range(n)]
        if k < .32:
            return [-r.uniform(.1, 1) * mag for _ in range(n)]
        if k < .5:                                   # ties: multiples of half a step
            lv = r.choice([7, 15, 127, 255])
            v = [r.randint(-2 * lv, 2 * lv) / 2 for _ in range(n)]
            if n > 1:
                v[r.randrange(n)] = float(r.choice([-lv, lv]))
            return [x * mag for x in v]
        v = [r.gauss(0, 1) * mag for _ in range(n)]
        for i in range(n):
            if r.random() < .1:
                v[i] = r.choice([0., 0., v[i] * 30, v[i] / 1000])
        return v
    if r.random() < .1:
        a = np.array([r.choice([0., 1e-45, -1e-45, 1e-40, 1e-38, -3e-38]) for _ in range(R * C)]).reshape(R, C)
    elif r.random() < .1 and dtype != np.float16:
        a = np.array([r.choice([3.4e38, -3.4e38, 1e38, 0.]) for _ in range(R * C)]).reshape(R, C)
    else:
        a = np.array([vec(C) for _ in range(R)])
    if dtype == np.float16:
        a = np.clip(a, -60000, 60000)
    return a.astype(dtype)


def flat(a):
    return [vlib.as_int(v) for v in np.asarray(a).reshape(-1).tolist()]


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Quant', workers=6, timeout=2000, expect_actions=('AddValue', 'Quantize'), consts=dict(Bound=40 if T else 20, MaxVals=4 if T else 3))
    r = vlib.rng('c21')
    cases = []
    A = chk.actions

    def common(rec, ok, err):
        rec.update(ok=ok, err=err)
        for k, v in dict(q=[], bytes=[], packed=False, qd=[], sd=[], zd=[], qt='', zt='', s=[], z=[]).items():
            rec.setdefault(k, v)
        return rec

    n = 9000 if T else 3000
    while len(cases) < n:
        typ, bits, block = r.choice(['sym', 'asym']), r.choice([4, 8]), r.choice([0, -1, -1, 1, 2, 3, 4, 5, 8, 32])
        R, C = r.randint(1, 7), r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 33])
        dtype = r.choice([np.float32] * 4 + [np.float16, np.float64])
        kind = r.random()
        if kind < .1:                                # packing by itself
            lo, hi = (-8, 7) if typ == 'sym' else (0, 15)
            lead = r.choice([[R], [R], [], [2, R]])
            codes = np.array([r.randint(lo, hi) for _ in range(int(np.prod(lead, dtype=int)) * C)], r.choice([np.int32, np.int8] if typ == 'sym' else [np.int32, np.uint8])).reshape(lead + [C])
            ok, out, err = call(Q.pack_4bits, codes)
            rows = int(np.prod(lead, dtype=int))
            rec = common(dict(kind='pack', type=typ, bits=4, block=0, R=rows, C=C, tr=False, x=[], graph=False), ok, err)
            rec['q'] = flat(codes)
            rec['bytes'] = flat(out) if ok and np.asarray(out).dtype == np.uint8 else []
            cases.append(dict(sig=f'pack {typ} {list(codes.shape)} {codes.dtype}', rec=rec, info=dict(codes=codes.tolist())))
            A['packed arrays'] = A.get('packed arrays', 0) + 1
            continue
        x = weight(r, R, C, dtype)
        sig = f'{typ} {bits} bits block {block} {R}x{C} {np.dtype(dtype).name}'
        if kind < .5:
            given = x
            if block == -1 and r.random() < .15 and R % 2 == 0:
                given = x.reshape(2, R // 2, C)      # rows of a tensor of higher rank
            elif block == 0 and r.random() < .2:
                given = x.reshape(-1)
            before = given.copy()
            ok, res, err = call(Q.quantize, given, block, typ, bits)
            rec = dict(kind='quant', type=typ, bits=bits, block=block, R=R, C=C, tr=False, x=[real(v) for v in x.reshape(-1)], graph=False)
            if ok:
                q, s, z = (np.asarray(v) for v in res)
                rec.update(q=flat(q), s=[real(v) for v in s.reshape(-1)], z=flat(z) if typ == 'asym' else [], qd=[R, C] if q.shape == given.shape else list(q.shape),
                           sd=list(s.shape), zd=list(z.shape), qt=q.dtype.name, zt=z.dtype.name)
                if not np.array_equal(before, given):
                    ok, err = False, 'the weight was changed'
            cases.append(dict(sig='quantize ' + sig, rec=common(rec, ok, err), info=dict(x=x.tolist())))
            A['quantize'] = A.get('quantize', 0) + 1
            continue
        # a weight of a graph
        op = r.choice(['MatMul', 'Gemm', 'GemmT', 'Add', 'Gather'])
        tr = op in ('Gemm', 'MatMul')       # codes are stored output channel by output channel
        w = np.ascontiguousarray(x.T) if tr else x
        et = helper.np_dtype_to_tensor_dtype(np.dtype(dtype))
        ins = dict(MatMul=['a', 'w'], Gemm=['a', 'w'], GemmT=['a', 'w'], Add=['a', 'w'], Gather=['w', 'i'])[op]
        nd = [helper.make_node(op.replace('GemmT', 'Gemm'), ins, ['y'], name='n', **({'transB': 1} if op == 'GemmT' else {}))]
        if r.random() < .3:
            nd.append(helper.make_node(op.replace('GemmT', 'Gemm'), ins, ['y2'], name='n2', **({'transB': 1} if op == 'GemmT' else {})))
        g = helper.make_graph(nd, 'g', [helper.make_tensor_value_info('a', et, ['p', 'q']), helper.make_tensor_value_info('i', TensorProto.INT64, ['k'])],
                              [helper.make_tensor_value_info(n.output[0], et, None) for n in nd], [numpy_helper.from_array(w, 'w')])
        m = ot.Model(helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)]))
        ok, _, err = call(Q.graph_quantize, m.graph, 'w', block, typ, bits)
        rec = dict(kind='quant', type=typ, bits=bits, block=block, R=R, C=C, tr=tr, x=[real(v) for v in w.reshape(-1)], graph=True)
        if ok:
            tm = m.graph.tensormap
            names = ['w_ot_q', 'w_ot_s'] + (['w_ot_z'] if typ == 'asym' else [])
            missing = [k for k in names if k not in tm or tm[k].numpy is None]
            if missing:
                ok, err = False, 'no tensor ' + missing[0]
            else:
                q, s = np.asarray(tm['w_ot_q'].numpy), np.asarray(tm['w_ot_s'].numpy)
                z = np.asarray(tm['w_ot_z'].numpy) if typ == 'asym' else np.zeros(0)
                packed = bits == 4
                rec.update(q=[] if packed else flat(q), bytes=flat(q) if packed else [], packed=packed, s=[real(v) for v in s.reshape(-1)], z=flat(z) if typ == 'asym' else [],
                           qd=list(q.shape), sd=list(s.shape), zd=list(z.shape) if typ == 'asym' else [], qt=q.dtype.name, zt=z.dtype.name)
        cases.append(dict(sig=f'graph_quantize {op} ' + sig, rec=common(rec, ok, err), info=dict(w=w.tolist())))
        A['graph_quantize ' + op] = A.get('graph_quantize ' + op, 0) + 1
    chk.validate('T_Quant', cases, shard=60)
    chk.assumptions += ['finite weights; the tolerance on top of half a step is a thousandth of a step (single precision arithmetic); scales are the group range over the number of steps up to half precision']
