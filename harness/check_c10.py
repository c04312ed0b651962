"""C10: sparsity of weights."""
import csv, os, tempfile
from fractions import Fraction
import numpy as np
from onnx import helper, numpy_helper, TensorProto
import vlib
from vlib import call

ot = vlib.import_repo()
ANALYSED = ('float32', 'float64', 'int32', 'int8', 'uint8', 'float16')


def factor(r, n, lo):
    """Dimensions around a volume of n."""
    return max(1, n // lo)


def shape(r):
    k = r.random()
    if k < .5:
        o = r.choice([64, 96, 128, 32, 65, 48, 72, 33, 256, 16, 512, 8, 66])
        i = max(1, r.choice([4097, 4200, 5000, 6144, 8192, 8192, 4096]) // o)
        i = r.choice([i + (-i) % r.choice([1, 2, 4, 8, 16, 3]), i + r.randint(0, 3)])
        return [o, i] if r.random() < .5 else [i, o]
    if k < .85:
        kh, kw = r.choice([(1, 1), (3, 3), (1, 3), (2, 2), (5, 1)])
        o = r.choice([16, 32, 24, 33, 64, 8, 20, 6])
        i = max(1, r.choice([4200, 5000, 6200, 8192]) // (o * kh * kw))
        i += (-i) % r.choice([1, 2, 4, 8, 3])
        return [o, i, kh, kw] if r.random() < .5 else [i, o, kh, kw]
    return r.choice([[64, 64], [17, 241], [4097], [8, 8, 65], [4, 4, 4, 5, 16], [10, 10], [2, 3, 3, 3], [4096, 1], [1, 4097], [4098, 1], [8192]])


def weight(r, s):
    d = r.choice(['float32'] * 4 + ['float16', 'float64', 'int8', 'uint8', 'int32', 'int64', 'bool', 'int16', 'uint16'])
    g = np.random.default_rng(r.randrange(2**32))
    if len(s) in (2, 4):
        o, i = s[:2]
        k = int(np.prod(s[2:], dtype=int))
        b0, b1 = r.choice([(1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (4, 4), (8, 8), (16, 1), (1, 16), (8, 2), (3, 1), (1, 3), (8, 1), (2, 4), (1, o), (i, 1)])
        p = r.choice([0., .3, .45, .5, .7, .9, .95, 1., .6])
        m = g.random((-(-o // b0), -(-i // b1), k if r.random() < .7 else 1)) < p
        m = np.repeat(np.repeat(m, b0, 0), b1, 1)[:o, :i]
        m = np.broadcast_to(m, (o, i, k)).copy()
        if r.random() < .4:              # stripes of another pattern
            q = r.choice([2, 4, 8])
            m |= (np.arange(o) // q % 2 == 0)[:, None, None] if r.random() < .5 else (np.arange(i) // q % 2 == 0)[None, :, None]
        if r.random() < .25:             # a mixture: one part in blocks of rows, one in blocks of columns
            a = g.random((-(-o // 4), i, k)) < p
            m[:o // 2] = np.repeat(a, 4, 0)[:o // 2]
        noise = r.choice([0, 0, 0, .01, .05, .1, .2])
        m ^= (g.random(m.shape) < noise)
        if r.random() < .1:              # exactly at a limit
            m = np.zeros(o * i * k, bool)
            m[:r.choice([(2 * m.size) // 5, (2 * m.size) // 5 + 1, m.size // 2])] = True
            if r.random() < .5:
                g.shuffle(m)
        m = m.reshape(s)
    else:
        m = g.random(s) < r.choice([.2, .8])
    if np.dtype(d).kind == 'f':
        v = g.choice([1., -1., .5, 65504., -0.25, float('nan') if r.random() < .2 else 3., float('inf')], size=s)
        z = g.choice([0., -0.], size=s)
    elif d == 'uint8':
        v, z = g.choice([0, 1, 127, 129, 255], size=s), 128
    elif d == 'bool':
        v, z = True, False
    else:
        v, z = g.choice([1, 2, 100, 127], size=s) * (g.choice([1, -1], size=s) if d[0] != 'u' else 1), 0
    return np.where(m, z, v).astype(d), m


def report(sp, size):
    if sp is None:
        return dict(b0=1, b1=1, bp=0, bq=1, p=0, q=1)
    b = [vlib.as_int(x) for x in sp['blocksize']]

    def frac(x):
        f = Fraction(float(x)).limit_denominator(max(1, size))
        return (f.numerator, f.denominator) if abs(float(f) - float(x)) < 1e-12 else (-1, 1)
    (bp, bq), (p, q) = frac(sp['blockratio']), frac(sp['ratio'])
    return dict(b0=b[0], b1=b[1], bp=bp, bq=bq, p=p, q=q)


def case(r, d):
    nodes, inits, arrs = [], [], {}
    fold = r.random() < .2
    for k in range(r.randint(1, 3)):
        ins = [r.choice(['x', f't{k - 1}']) if k else 'x']
        for j in range(r.choice([0, 1, 1, 1, 2, 3]) if k else r.choice([1, 1, 2])):
            n = f'w{k}_{j}'
            if arrs and r.random() < .2:
                n = r.choice(list(arrs))          # a weight used twice
            else:
                a, z = weight(r, shape(r))
                arrs[n] = (a, z)
                if fold and r.random() < .6:
                    nodes.append(helper.make_node('Constant', [], [n], name='c' + n, value=numpy_helper.from_array(a, n)))
                else:
                    inits.append(numpy_helper.from_array(a, n))
            ins.append(n)
        if r.random() < .5:
            r.shuffle(ins)
        nodes.append(helper.make_node('Foo%d' % len(ins), ins, [f't{k}'], name=f'n{k}', domain='my'))
    g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info('x', 1, [1, 4])], [helper.make_tensor_value_info(f't{k}', 1, [1, 4])], inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 17), helper.make_opsetid('my', 1)])
    # an operator of our own, as documented, for any wiring
    from onnx_tool.node import NODE_REGISTRY, Node
    for nd in nodes:
        if nd.domain == 'my' and nd.op_type + 'Node' not in NODE_REGISTRY:
            def infer(self, i, o):
                o[0].update_shape([1, 4])
                o[0].update_dtype(np.float32)
            NODE_REGISTRY.register(type(nd.op_type + 'Node', (Node,), dict(shape_infer=infer)))
    new = {i.name: weight(r, list(i.dims)) for i in inits if r.random() < .12}
    rec = dict(ws=[], nodes=[], ok=False, err='', cols=[], want=[])

    def go():
        gr = ot.Model(m, {'constant_folding': fold}).graph
        for n in new:            # a weight given a new value, as the fusions do
            t = gr.tensormap[n]
            t.update_proto(new[n][0])
            arrs[n] = new[n]
        gr.shape_infer({'x': np.zeros((1, 4), np.float32)})
        gr.profile()
        f = os.path.join(d, 'p.csv')
        gr.print_node_map(f)
        sizes = {n: a.size for n, (a, z) in arrs.items()}
        for n, (a, z) in arrs.items():
            an = a.ndim in (2, 4) and a.size > 4096 and a.dtype.name in ANALYSED
            rec['ws'].append(dict(n=n, an=an, O=a.shape[0] if an else 1, I=a.shape[1] if an else 1, K=int(np.prod(a.shape[2:], dtype=int)) if an else 1,
                                  z=z.reshape(-1).astype(int).tolist() if an else [1], r=report(gr.tensormap[n].sparsity, a.size)))
        for nd in nodes:
            if nd.name in gr.nodemap:
                rec['nodes'].append(dict(n=nd.name, ins=[i for i in nd.input if i in arrs], r=report(gr.nodemap[nd.name].sparsity, max(list(sizes.values())))))
        rows = list(csv.reader(open(f)))
        if 'Sparse Pattern' in rows[0]:
            at = [rows[0].index(x) for x in ('Sparse Pattern', 'Sparse Block Ratio', 'Sparse Ratio')]
            rec['cols'] = [[row[0]] + [row[i] for i in at] for row in rows[1:] if row[0] in gr.nodemap]
        for name in gr.nodemap:
            q = next((x['r'] for x in rec['nodes'] if x['n'] == name), None)
            if q:
                rec['want'].append([name, f"{q['b0']}x{q['b1']}", f"{q['bp'] / q['bq']:.2%}", f"{q['p'] / q['q']:.2%}"])
    rec['ok'], _, rec['err'] = call(go)
    return dict(sig='weights ' + '; '.join(f'{n}: {a.dtype}{list(a.shape)} {z.mean():.3f} zero -> {[x["r"] for x in rec["ws"] if x["n"] == n]}' for n, (a, z) in arrs.items())
                + ' nodes ' + '; '.join(f'{n.name}({",".join(n.input)})' for n in nodes) + (' folded' if fold else ''), rec=rec)


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Sparse', workers=8, timeout=850, expect_actions=() if T else ('Dense', 'Double', 'Finish'),
                    consts=dict(Shapes='{421, 241, 232, 222, 811, 181, 261, 431, 331, 441, 442, 351, 281}' if T else '{421, 241, 232, 222, 811, 181, 261, 431}'))
    r = vlib.rng('c10')
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c10_') as d:
        for k in range(2500 if T else 420):
            cases.append(case(r, d))
    for c in cases:
        for w in c['rec']['ws']:
            x = w['r']
            k = 'dense' if not w['an'] or x['p'] * 10 <= 4 * x['q'] else '1x1' if x['b0'] == x['b1'] == 1 else 'square' if x['b0'] == x['b1'] else '1xn' if x['b0'] == 1 else 'nx1'
            chk.actions[k] = chk.actions.get(k, 0) + 1
    chk.validate('T_Sparse', cases, shard=12)
    chk.assumptions += ['which of two incomparable blocks is shown is the tool\'s choice: the longest one, the square one if it is as long']
