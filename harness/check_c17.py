"""C17: fusing normalisations into convolutions."""
import os, tempfile
from fractions import Fraction
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
from onnx.reference import ReferenceEvaluator
import opsdrv as od
import vlib
from sessiondrv import fixed
from vlib import call

ot = vlib.import_repo()
from onnx_tool.fusion import ConvBNFusion

VARS = [0.75, 2., 0., 3.75, 6., 1.3125, 0.3125, 8.75]      # with 1/4 added: squares of rationals
NP = dict(f32=np.float32, f16=np.float16, f64=np.float64)


def q_of(x):
    f = Fraction(float(x)).limit_denominator(4096)
    return [f.numerator, f.denominator]


def enc(n, x):
    return dict(n=n, s=list(x.shape), d=od.dtype_name(x.dtype), q=[q_of(e) for e in x.reshape(-1)], fx=[fixed(e) for e in x.reshape(-1)])


class Net:
    """A random network in which every tensor has the same shape."""
    def __init__(self, r):
        self.r = r
        self.C = r.choice([1, 2, 2, 4])
        self.sp = r.choice([1, 2, 2, 2, 2, 3])
        self.d = r.choice(['f32'] * 6 + ['f64', 'f16'])
        self.S = [1, self.C] + [3] * self.sp
        self.nodes, self.inits, self.eps, self.cap, self.made, self.inputs = [], {}, {}, [], ['x'], ['x']
        self.pars = []                 # parameters that exist already
        self.ws = []
        self.k = 0

    def new(self, p):
        self.k += 1
        return f'{p}{self.k}'

    def vec(self, var=False):
        r = self.r
        v = [r.choice(VARS) for _ in range(self.C)] if var else [r.randint(-6, 6) / 2 for _ in range(self.C)]
        if not var and self.pars and r.random() < .15:
            return r.choice(self.pars)                 # one constant in two places
        n = self.new('v' if var else 'p')
        self.inits[n] = np.array(v, NP[self.d])
        if not var:
            self.pars.append(n)
        return n

    def name(self, op):
        return self.new(op.lower() + '_')

    def conv(self, x):
        r, C = self.r, self.C
        g = r.choice([1, 1, C, 2 if C % 2 == 0 else 1])
        k = [r.choice([1, 1, 2, 3] + ([8, 9] if r.random() < .2 and self.sp < 3 else [])) for _ in range(self.sp)]
        if self.ws and r.random() < .12:
            w, g, k = r.choice(self.ws)                # shared weights
        else:
            w = self.new('w')
            self.inits[w] = np.array([r.randint(-4, 4) / 2 for _ in range(C * (C // g) * int(np.prod(k)))], NP[self.d]).reshape([C, C // g] + k)
            self.ws.append((w, g, k))
        if r.random() < .06:                           # computed weights
            y = self.new('cw')
            self.nodes.append(('Neg', [w], [y], {}, self.name('Neg')))
            w = y
        ins = [x, w]
        b = r.random()
        if b < .4:
            ins.append(self.vec())
            if r.random() < .1:
                y = self.new('cb')
                self.nodes.append(('Neg', [ins[2]], [y], {}, self.name('Neg')))
                ins[2] = y
        elif b < .5:
            ins.append('')
        a = dict(group=g, pads=[(q - 1) // 2 for q in k] + [q - 1 - (q - 1) // 2 for q in k], strides=[1] * self.sp, dilations=[1] * self.sp)
        if r.random() < .9:
            a['kernel_shape'] = k
        if r.random() < .2 and g == 1:
            del a['group']
        o = self.new('t')
        self.nodes.append(('Conv', ins, [o], a, self.name('Conv')))
        return o

    def bn(self, x):
        r = self.r
        ins = [x, self.vec(), self.vec(), self.vec(), self.vec(True)]
        if r.random() < .06:
            k = r.randint(1, 4)
            y = self.new('cp')
            self.nodes.append(('Identity' if k == 4 else 'Neg', [ins[k]], [y], {}, self.name('Neg')))
            ins[k] = y
        a = dict(epsilon=.25)
        if r.random() < .1 and not any(v == 0 for v in self.inits.get(ins[4], [0])):
            a = {}
        if r.random() < .1:
            a['momentum'] = .5
        outs = [self.new('t')]
        nm = self.name('Bn')
        if r.random() < .08:
            a['training_mode'] = 1
            if r.random() < .7:
                outs += [self.new('m'), self.new('m')]
        elif r.random() < .1:
            a['training_mode'] = 0
        self.nodes.append(('BatchNormalization', ins, outs, a, nm))
        self.eps[nm] = [1, 4] if 'epsilon' in a else [1, 100000]
        return outs

    def grow(self):
        r = self.r
        x = r.choice(self.made[-2:])
        t = r.random()
        if t < .6:                                     # what it is all about
            o = self.conv(x)
            if r.random() < .12:
                self.made.append(o)                    # somebody else may want it too
            if r.random() < .08:
                z = self.new('t')
                self.nodes.append((r.choice(['Relu', 'Neg']), [o], [z], {}, self.name('Act')))
                o = z
            outs = self.bn(o)
            if len(outs) > 1 and r.random() < .6:
                self.extra.append(outs[r.randint(1, 2)])
            if r.random() < .1:
                outs2 = self.bn(outs[0])
                self.made.append(outs2[0])
                if r.random() < .3:
                    self.made.append(outs[0])
            else:
                self.made.append(outs[0])
        elif t < .7:
            self.made.append(self.conv(x))
        elif t < .76:
            self.made.append(self.bn(x)[0])
        elif t < .9:
            o = self.new('t')
            self.nodes.append((r.choice(['Relu', 'Neg']), [x], [o], {}, self.name('Act')))
            self.made.append(o)
        else:
            o = self.new('t')
            self.nodes.append((r.choice(['Add', 'Mul', 'Sub']), [x, r.choice(self.made)], [o], {}, self.name('Bin')))
            self.made.append(o)

    def build(self):
        r = self.r
        self.extra = []
        for _ in range(r.randint(1, 5)):
            self.grow()
        if r.random() < .12 and self.made:             # a nested graph that takes a tensor from outside
            t = r.choice([x for x in ([n[2][0] for n in self.nodes] + self.made) if x])
            if t in self.made or any(n[2][0] == t and n[0] in ('Conv', 'BatchNormalization') for n in self.nodes):
                self.cap = [t]
        return self

    def rename(self, x, y):
        f = lambda ns: [y if n == x else n for n in ns]
        self.nodes = [(op, f(i), f(o), a, n) for op, i, o, a, n in self.nodes]
        self.outs, self.cap, self.xname = f(self.outs), f(self.cap), f([self.xname])[0]
        if x in self.inits:
            self.inits[y] = self.inits.pop(x)

    xname = 'x'

    def model(self):
        r = self.r
        used = {i for n in self.nodes for i in n[1]}
        prod = [o for n in self.nodes for o in n[2]]
        outs = [o for o in self.made[1:] if o not in used and o in prod] or [self.nodes[-1][2][0]]
        self.outs = list(dict.fromkeys(outs + [x for x in self.extra if x in prod and r.random() < .7]
                                       + [n[2][0] for n in self.nodes if r.random() < .06]))
        if r.random() < .06 and self.inits:
            self.outs.append(next(iter(self.inits)))   # a weight is also a result
        r.shuffle(self.outs)
        if r.random() < .25:                           # the name the pass would choose
            c = [n for n in self.nodes if n[0] == 'Conv']
            if c:
                self.rename(self.outs[0] if r.random() < .7 else self.nodes[0][1][1] if len(self.nodes[0][1]) > 1 else 'x', r.choice(c)[4] + '_bias_')
        nodes = [helper.make_node(op, i, o, name=nm, **a) for op, i, o, a, nm in self.nodes]
        if self.cap:
            tp = od.D2TP[self.d]
            sub = lambda k, o: helper.make_graph([helper.make_node('Identity', [self.cap[0]], [k])] if o else
                                                 [helper.make_node('Neg', [self.cap[0]], [k])], k, [], [helper.make_tensor_value_info(k, tp, None)])
            nodes.append(helper.make_node('If', ['flag'], ['ifout'], name='If', then_branch=sub('then', True), else_branch=sub('else', False)))
            self.outs.append('ifout')
        d = od.D2TP[self.d]

        def tensor(n, x):
            if r.random() < .6 or self.d == 'f16':
                return numpy_helper.from_array(x, n)
            return helper.make_tensor(n, d, list(x.shape), x.reshape(-1).tolist())
        used = {i for n in self.nodes for i in n[1]} | set(self.outs)
        self.inits = {n: x for n, x in self.inits.items() if n in used}
        inp = [helper.make_tensor_value_info(self.xname, d, self.S)]
        inits = [tensor(n, x) for n, x in self.inits.items()]
        if self.cap:
            inits.append(numpy_helper.from_array(np.array(True), 'flag'))
        if r.random() < .1 and self.inits:              # listed among the inputs as old exporters do
            inp += [helper.make_tensor_value_info(n, d, list(x.shape)) for n, x in self.inits.items()]
        g = helper.make_graph(nodes, 'g', inp, [helper.make_tensor_value_info(o, d, None) for o in self.outs], inits)
        return helper.make_model(g, opset_imports=[helper.make_opsetid('', 15)])


def project(g):
    st = vlib.graph_state(g)
    nodes = []
    for n in st['nodes']:
        nd = g.nodemap[n['n']]
        a = []
        for k in ('kernel_shape', 'training_mode'):
            if k in nd.attr:
                v = nd.attr[k]
                a.append(dict(k=k, v=[int(e) for e in (v if isinstance(v, (list, tuple)) else [v])]))
        nodes.append(dict(n=n['n'], op=n['op'], i=n['i'], o=n['o'], a=a))
    return dict(nodes=[n for n in nodes if n['op'] != 'If'], ifs=[n['n'] for n in nodes if n['op'] == 'If'], inp=st['inp'], out=[o for o in st['out'] if o != 'ifout'],
                ini=[x for x in st['ini'] if x != 'flag'],
                prod=[p for p in st['prod'] if p['t'] != 'ifout'], cons=[p for p in st['cons'] if p['t'] not in ('flag', 'ifout')])


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_ConvBN', workers=6, expect_actions=('Build', 'Outputs', 'Fuse'), consts=dict(MaxNodes=4 if T else 3))
    r = vlib.rng('c17')
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c17_') as d:
        src, dst = os.path.join(d, 'in.onnx'), os.path.join(d, 'out.onnx')
        while len(cases) < (8000 if T else 2000):
            m = Net(r).build()
            mp = m.model()
            onnx.save_model(mp, src)
            ok, g, err = call(lambda: ot.Model(src).graph)
            sig = ' '.join(f"{op}({','.join(i)})->{','.join(o)}" + (f" k={a['kernel_shape']}" if 'kernel_shape' in a else '') + (' training' if a.get('training_mode') else '')
                           for op, i, o, a, n in m.nodes) + f" out={','.join(m.outs)} cap={m.cap} {m.d}"
            if not ok:
                chk.reject('load', 'loading raised ' + err, sig)
                continue
            if r.random() < .15 and not m.cap:
                def cgraph():
                    g.graph_reorder_nodes()
                    g.shape_infer({m.xname: np.ones(m.S, NP[m.d])})
                    g.profile()
                    return g.get_compute_graph()
                ok, cg, err = call(cgraph)
                if ok:
                    g, how = cg, 'compute graph '
                else:
                    chk.reject('compute', 'compute graph raised ' + err, sig)
                    continue
            else:
                how = ''
            before = project(g)
            consts = [enc(n, np.asarray(g.tensormap[n].numpy)) for n in before['ini']]
            rec = dict(g=dict(nodes=before['nodes'], inp=before['inp'], out=before['out'], cap=m.cap, ini=before['ini']),
                       eps=[dict(n=k, v=v) for k, v in m.eps.items()], before=consts, after=[], run=[], h=before)
            ok, _, err = call(ConvBNFusion, g)
            rec.update(ok=ok, err=err)
            if ok:
                h = project(g)
                rec['h'] = h
                rec['after'] = [enc(n, np.asarray(g.tensormap[n].numpy)) for n in h['ini'] if n in g.tensormap and g.tensormap[n].numpy is not None]
                chk.actions['fused'] = chk.actions.get('fused', 0) + len(before['nodes']) - len(h['nodes'])
                chk.actions['kept'] = chk.actions.get('kept', 0) + sum(n['op'] == 'BatchNormalization' for n in h['nodes'])
                if not how:
                    loose = 60 if m.d == 'f16' else 10000

                    def go():
                        g.save_model(dst)
                        res = onnx.load_model(dst)
                        for o in res.opset_import:
                            if o.domain == '':
                                o.version = 15
                        x = {m.xname: np.array([r.randint(-3, 3) for _ in range(int(np.prod(m.S)))], NP[m.d]).reshape(m.S)}
                        del res.graph.value_info[:]
                        a = ReferenceEvaluator(mp).run(None, x)
                        b = ReferenceEvaluator(res).run(None, x)
                        return [(o.name, u, v) for o, u, v in zip(mp.graph.output, a, b)]
                    if not any(n[3].get('training_mode') for n in m.nodes):
                        ok, res, err = call(go)
                        if ok and all(np.all(np.isfinite(u)) and np.abs(u).max() < (300 if m.d == 'f16' else 1e5) for _, u, _ in res):
                            rec['run'] = [dict(n=n, r=loose, want=[fixed(e) for e in np.asarray(u).reshape(-1)], got=[fixed(e) for e in np.asarray(v).reshape(-1)]) for n, u, v in res]
                            if m.d == 'f16':      # rounding to half precision grows along the network
                                for x in rec['run']:
                                    s = max(map(abs, x['want']), default=1) // 1000 + 1
                                    x.update(want=[e // (40 * s) for e in x['want']], got=[e // (40 * s) for e in x['got']])
                        elif not ok:
                            rec['run'] = [dict(n='result: ' + err, r=1, want=[], got=[1])]
            cases.append(dict(sig=how + sig, rec=rec))
    chk.validate('T_ConvBN', cases, shard=90)
    chk.assumptions += ['the pass has to fuse two-dimensional kernels of up to 7x7 (its documented pattern) and may fuse others']
