"""C22: the graph around quantized weights."""
import hashlib, os, tempfile
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
import vlib
from vlib import call, names

ot = vlib.import_repo()
from onnx_tool.quantization import graph_quantize


def digest(a):
    a = np.asarray(a)
    return hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:12]


def state(g):
    nodes = []
    for n, nd in g.nodemap.items():
        a = nd.attr
        q = [vlib.as_int(a['OTQ_Block']), str(a['OTQ_Type']), vlib.as_int(a['OTQ_Bits'])] if 'OTQ_Block' in a else []
        if q and [nd.OTQ_Block, nd.OTQ_Type, nd.OTQ_Bits] != [a['OTQ_Block'], a['OTQ_Type'], a['OTQ_Bits']]:
            q = [0, 'attributes differ', 0]
        nodes.append(dict(n=str(n), op=nd.op_type, tb=vlib.as_int(getattr(nd, 'transB', 0)), i=names(nd.input), o=names(nd.output), c=vlib.caps(nd), q=q))
    ini = []
    for k in g.initials:
        t = g.tensormap.get(k)
        if t is None or t.numpy is None:
            ini.append(dict(n=str(k), d=[], t='missing', h=''))
        else:
            ini.append(dict(n=str(k), d=list(t.numpy.shape), t=t.numpy.dtype.name, h=digest(t.numpy)))
    return dict(nodes=nodes, ini=ini)


def cons(g):
    return [dict(n=str(t), u=sorted(set(names(v))) if isinstance(v, (list, tuple)) else ['? not a list']) for t, v in g.consumedby.items()]


class Net:
    def __init__(self, r):
        self.r = r
        self.inits, self.nodes = {}, []
        self.act = ['x', 'idx', 'cond']
        K = r.randint(2, 4)
        pool = ['w', 'w1', 'fc.weight', 'a_ot_q', 'w_ot_s', 'my_ot_scale', 'b', 'emb', 'k', 'w_ot_q']
        r.shuffle(pool)
        for n in pool[:r.randint(2, 5)]:
            rank = r.choice([2, 2, 2, 2, 1, 3, 0])
            shape = [r.choice([K, 3, 5]) for _ in range(rank)]
            if rank == 2 and r.random() < .06:
                shape[0] = 0
            dt = r.choice([np.float32] * 5 + [np.float16, np.float64, np.int32, np.int8])
            self.inits[n] = np.array([r.randint(-9, 9) for _ in range(int(np.prod(shape, dtype=int)))]).reshape(shape).astype(dt)
        ws = list(self.inits)
        self.cap = []
        for k in range(r.randint(1, 6)):
            op = r.choice(['MatMul', 'MatMul', 'Gemm', 'Gemm', 'Add', 'Gather', 'Concat', 'If'])
            w, o, a = r.choice(ws), f't{k}', r.choice(self.act)
            at = {}
            if op == 'If':
                if self.cap or r.random() < .5:
                    continue
                b = lambda n, src: helper.make_graph([helper.make_node('Identity', [src], [n])], 'b', [], [helper.make_tensor_value_info(n, TensorProto.FLOAT, ['u'])])
                self.cap.append(w)
                self.nodes.append(helper.make_node('If', ['cond'], [o], name=f'n{k}', then_branch=b(f'c{k}', w), else_branch=b(f'd{k}', a)))
                self.act.append(o)
                if a in ws:
                    self.cap.append(a)
                continue
            if op == 'Gemm':
                i = r.choice([[a, w], [a, w, r.choice(ws)], [w, a], [a, w, w], [w, w]])
                at = dict(transB=r.choice([0, 0, 1])) if r.random() < .7 else {}
                if r.random() < .2:
                    at['alpha'] = .5
            elif op == 'MatMul':
                i = r.choice([[a, w], [a, w], [w, a], [w, r.choice(ws)]])
            elif op == 'Gather':
                i, at = [w, 'idx'], dict(axis=0)
            elif op == 'Concat':
                i, at = r.choice([[w, r.choice(ws), w], [a, w]]), dict(axis=0)
            else:
                i = r.choice([[a, w], [w, w], [w, a]])
            self.nodes.append(helper.make_node(op, i, [o], name=f'n{k}', **at))
            self.act.append(o)
        self.outs = [t for t in self.act if t.startswith('t')][-1:]
        if self.outs and r.random() < .25:
            self.outs.append(r.choice(ws))
        self.ws = ws

    def model(self):
        g = helper.make_graph(self.nodes, 'g', [helper.make_tensor_value_info('x', TensorProto.FLOAT, ['p', 'q']), helper.make_tensor_value_info('idx', TensorProto.INT64, ['k']),
                                                helper.make_tensor_value_info('cond', TensorProto.BOOL, [])],
                              [helper.make_tensor_value_info(o, TensorProto.FLOAT, None) for o in self.outs], [numpy_helper.from_array(v, k) for k, v in self.inits.items()])
        return helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)])


def saved(m, d):
    dst = os.path.join(d, 'q.onnx')
    m.save_model(dst)
    p = onnx.load_model(dst).graph
    st = state(m.graph)
    want = [(n['n'], n['op'], n['i'], n['o'], n['q']) for n in st['nodes']]
    got = []
    for n in p.node:
        a = {x.name: helper.get_attribute_value(x) for x in n.attribute}
        q = [a['OTQ_Block'], a['OTQ_Type'].decode(), a['OTQ_Bits']] if 'OTQ_Block' in a else []
        got.append((n.name, n.op_type, list(n.input), list(n.output), q))
    if want != got:
        return 'nodes'
    used = {i for n in p.node for i in n.input}
    inits = {i.name: numpy_helper.to_array(i) for i in p.initializer}
    for i in st['ini']:
        if i['n'] in used and (i['n'] not in inits or [list(inits[i['n']].shape), inits[i['n']].dtype.name, digest(inits[i['n']])] != [i['d'], i['t'], i['h']]):
            return 'initializer ' + i['n']
    extra = set(inits) - {i['n'] for i in st['ini']}
    return 'initializers nobody has: ' + ' '.join(sorted(extra)) if extra else ''


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_QuantGraph', workers=6, timeout=2000, expect_actions=('Build', 'Quantize'), consts=dict(MaxNodes=4 if T else 3))
    r = vlib.rng('c22')
    A = chk.actions
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c22_') as d:
        while len(cases) < (9000 if T else 2600):
            net = Net(r)
            if not net.outs:
                continue
            m = ot.Model(net.model())
            g = m.graph
            fixed = dict(out=net.outs, cap=net.cap, act=net.act)
            first, steps, seq = state(g), [], []

            def quantize(w, setting):
                c = dict(w=w, block=setting[0], type=setting[1], bits=setting[2])
                rest = list(setting)        # what equals the default may be left out
                while rest and rest[-1] == [-1, 'sym', 8][len(rest) - 1] and r.random() < .8:
                    rest.pop()
                ok, _, err = call(graph_quantize, g, w, *rest)
                steps.append(dict(kind='quantize', call=c, ok=ok, err=err, st=state(g), cons=cons(g)))
                seq.append(f'{w}:{setting}')
                if len(steps) > 1 and steps[-1]['st'] != steps[-2]['st']:
                    A['rewired'] = A.get('rewired', 0) + 1
                A['quantize'] = A.get('quantize', 0) + 1
            setting = lambda: (r.choice([0, -1, -1, 1, 2, 4, 32]), r.choice(['sym', 'asym']), r.choice([4, 8]))
            none = dict(w='', block=0, type='sym', bits=8)
            for _ in range(r.randint(1, 4)):
                x = r.random()
                if x < .55:
                    quantize(r.choice(net.ws + net.ws + ['x', 't0', 'nothing', net.ws[0] + '_ot_q']), setting())
                elif x < .75:
                    s = setting()
                    for key in g.initials:        # as the examples do
                        quantize(key, s)
                        if len(steps) > 12:
                            break
                else:
                    how, f = r.choice([('relate', g.update_tensor_relations), ('update', g.update_graph), ('reorder', g.graph_reorder_nodes),
                                       ('save', lambda: m.save_model(os.path.join(d, 's.onnx')))])
                    ok, _, err = call(f)
                    A[how] = A.get(how, 0) + 1
                    seq.append(how)
                    steps.append(dict(kind='other', call=none, ok=ok, err=err, st=state(g), cons=cons(g)))
            ok, why, err = call(saved, m, d)
            sig = ' '.join(f"{n.op_type}({','.join(n.input)})" for n in net.nodes) + f' out={net.outs} cap={net.cap} ' + ' '.join(f'{k}{list(v.shape)}{v.dtype}' for k, v in net.inits.items()) + ': ' + ' '.join(seq)
            cases.append(dict(sig=sig, rec=dict(fixed=fixed, first=first, steps=steps, saved=why if ok else 'raised ' + err)))
    chk.validate('T_QuantGraph', cases, shard=60)
    chk.assumptions += ['a weight that is a graph output or taken by a nested graph cannot be replaced and is left alone']
