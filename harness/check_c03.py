"""C03: constant folding replaces exactly the constant part of a model by its values."""
import os, tempfile
import numpy as np
import onnx
from onnx import numpy_helper
from onnx.reference import ReferenceEvaluator
import modelgen as mg
import opsdrv as od
import vlib
from sessiondrv import fixed
from vlib import call

ot = vlib.import_repo()
# operators whose attributes and operands decide much of the value
MANY = ['Slice', 'Pad', 'Split', 'Trilu', 'OneHot', 'Gather', 'GatherND', 'GatherElements', 'ScatterND', 'ScatterElements', 'TopK', 'Transpose', 'ReduceSum',
        'ReduceMean', 'ReduceMax', 'ReduceMin', 'ReduceProd', 'ArgMax', 'CumSum', 'Range', 'Expand', 'Tile', 'Conv', 'MaxPool', 'AveragePool', 'Concat',
        'Squeeze', 'Unsqueeze', 'Reshape', 'Div', 'Mod', 'Cast', 'Clip', 'Where', 'Flatten', 'Compress', 'DepthToSpace', 'ConstantOfShape', 'Einsum', 'Gemm',
        'MatMul', 'Softmax', 'LayerNormalization', 'Dropout', 'Hardmax', 'LpNormalization', 'MatMulInteger']
NOFOLD = {'DequantizeLinear', 'RandomNormalLike', 'RandomUniformLike'}


def enc_c(n, x):
    """A constant: shape, type, values exactly (integers) and in ten-thousandths."""
    x = np.asarray(x)
    return dict(n=n, s=list(x.shape), d=od.dtype_name(x.dtype), v=od.values(x, 400)[1], fx=[fixed(e) for e in x.reshape(-1)])


def sig_of(nd):
    return nd.domain + '|' + '|'.join(sorted(a.SerializeToString().hex() for a in nd.attribute))


class Consts(mg.ModelGen):
    """Models in which much depends on weights only."""
    bias = .5

    def datas(self, rank=None):
        both = [t for t in self.val if self.dt(t) == 'f32' and (rank is None and self.rank(t) > 0 or self.rank(t) == rank) and all(v.size for v in self.val[t])]
        c = [t for t in both if t in self.const]
        d = [t for t in both if t not in self.const]
        first, second = (c, d) if self.r.random() < self.bias else (d, c)
        return first or second


    def plant(self, i):
        ins = ['' if x is None else self.init(x) for x in i.ins]
        o = self.emit(i.op, ins, i.a, i.n)
        outs = [o] if isinstance(o, str) else o
        if not o:
            return None
        for y in outs:
            t = self.r.random()
            if t < .6:
                self.emit('Where', [self.flag, y, y])
            elif t < .75:
                self.emit('Identity', [y])
        return outs

    def start(self):
        self.flag = 'in0'
        self.inputs.append(('in0', 'b', []))
        self.val['in0'] = [np.array(self.r.random() < .5) for _ in range(self.na)]


def record(m, chk, r, d, shuffle):
    mp = m.model(r.choice(['sym', 'unknown', 'fixed']))
    if not m.outputs:
        return None
    rec = m.rec('sym')
    if shuffle:
        nodes = list(mp.graph.node)
        r.shuffle(nodes)
        del mp.graph.node[:]
        mp.graph.node.extend(nodes)
    rec['stored'] = [n.name for n in mp.graph.node]
    rec['at'] = [dict(n=n.name, sig=sig_of(n)) for n in mp.graph.node]
    rec['given'] = [dict(n=n, **od.enc_in(x)) for n, x in m.feed(0).items()]
    inits = {n for n, _ in m.inits}
    rec['refs'] = [enc_c(n, m.val[n][0]) for n in m.const if n not in inits]
    del rec['steps']
    via = r.choice(['api', 'graph', 'none'])
    src, dst = os.path.join(d, 'in.onnx'), os.path.join(d, 'out.onnx')
    onnx.save_model(mp, src)
    if os.path.exists(dst):
        os.unlink(dst)

    def go():
        if via == 'api':
            ot.model_constant_folding(src, dst)
        else:
            mm = ot.Model(mp if via == 'graph' else src, {'constant_folding': True, 'verbose': False})
            mm.save_model(dst, no_shape=r.random() < .5)
        return onnx.load_model(dst)
    ok, res, err = call(go)
    rec.update(ok=ok, err=err, unsupported='NotImplementedError' in err, f=dict(nodes=[], inits=[], inp=[], out=[]), run=[])
    if ok:
        g = res.graph
        arr = {}
        for t in g.initializer:
            try:
                arr[t.name] = numpy_helper.to_array(t)
            except Exception:
                arr[t.name] = np.zeros([0], np.complex64)
        rec['f'] = dict(nodes=[dict(n=n.name, op=n.op_type, i=list(n.input), o=list(n.output), sig=sig_of(n)) for n in g.node],
                        inits=[enc_c(t.name, arr[t.name]) if arr[t.name].dtype.kind != 'c' else dict(n=t.name, s=[-1], d='?', v=[], fx=[]) for t in g.initializer],
                        inp=[i.name for i in g.input if i.name not in arr], out=[o.name for o in g.output])
        a = r.randrange(m.na)
        loose = 500 if any(m.dt(t) == 'f16' for t in m.val) else 100000
        feed = {k: v for k, v in m.feed(a).items() if k in rec['f']['inp']}
        try:
            del res.graph.value_info[:]
            if shuffle:                     # execution needs them in order
                order = {n['n']: k for k, n in enumerate(rec['nodes'])}
                nodes = sorted(res.graph.node, key=lambda n: order.get(n.name, 0))
                del res.graph.node[:]
                res.graph.node.extend(nodes)
            outs = ReferenceEvaluator(res).run(None, feed)
            rec['run'] = [dict(n=n, r=loose, got=[fixed(e) for e in np.asarray(x).reshape(-1)], want=[fixed(e) for e in m.val[n][a].reshape(-1)]) for n, x in zip(m.outputs, outs)
                          if not m.random]
        except Exception as e:
            if 'read-only' not in str(e):   # the evaluator writes into its own initializers
                rec['run'] = [dict(r=1, n=f'result: {type(e).__name__} {e}'[:200], got=[1], want=[])]
    chk.actions['folded:' + via] = chk.actions.get('folded:' + via, 0) + 1
    if not ok:
        chk.actions['unsupported'] = chk.actions.get('unsupported', 0) + 1
    return dict(sig=('shuffled ' if shuffle else '') + m.sig(), rec=rec)


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Fold', workers=6, expect_actions=('Build', 'Search', 'Fold'))
    r = vlib.rng('c03')
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c03_') as d:
        # every operator on constants
        for i in [*od.instances(r, 40 if T else 8), *od.instances(r, 150 if T else 50, MANY)]:
            if i.domain or i.novalue:
                continue
            m = Consts(r, opset=i.opset)
            m.random = i.op.startswith('Random')
            m.start()
            if not m.plant(i):
                continue
            chk.actions[i.op] = chk.actions.get(i.op, 0) + 1
            case = record(m, chk, r, d, r.random() < .4)
            if case:
                cases.append(case)
        # constants, shape arithmetic and data mixed
        while len(cases) < (12000 if T else 4200):
            m = Consts(r)
            m.random = False
            m.start()
            m.bias = r.choice([.3, .5, .8])
            for _ in range(r.randint(1, 2)):
                m.init(m.g.arr(r.choice([[2, 2, 4, 4], [3, 4], [1, 2, 3, 3], [4]]), 'f32'))
            m.build(sinks=r.randint(0, 2), datas=r.randint(2, 6))
            if not m.nodes:
                continue
            case = record(m, chk, r, d, r.random() < .4)
            if case:
                cases.append(case)
    chk.validate('T_Fold', cases, shard=60)
    chk.assumptions += ['onnx.reference is the independent evaluator of constants the specification does not compute; an operator without value inference raises NotImplementedError, as documented']
