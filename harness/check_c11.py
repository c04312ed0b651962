"""C11: memory compression."""
import numpy as np
from onnx import helper, numpy_helper, TensorProto
import graphdrv as gd
import modelgen as mg
import vlib
from vlib import call, graph_state

ot = gd.ot
TYPES = [np.float32] * 6 + [np.float16, np.float64, np.int64, np.int32, np.bool_, np.uint8, np.int8]
SHAPES = [[], [1], [0], [3, 0], [5], [16], [17], [4, 4], [1, 3, 7], [64], [65], [2, 32, 32], [1, 1024], [1, 1025], [4097], [3, 64, 64], [100, 100]]
PADS = [64, 64, 64, 1, 16, 128, 1000, 4096, 8192]


def nested(m, r, g0):
    """An If whose branches take tensors of the graph."""
    ts = [o for n in g0['nodes'] for o in n['o'] if o] + g0['inp']
    at = r.randint(1, len(m.graph.node))
    avail = set(g0['inp']) | {o for n in list(m.graph.node)[:at] for o in n.output}
    ts = [t for t in ts if t in avail]
    if not ts:
        return None
    x, y = r.choice(ts), r.choice(ts)
    deep = helper.make_graph([helper.make_node('Neg', [x], ['zz'])], 'deep', [], [helper.make_tensor_value_info('zz', 1, None)])
    yes = helper.make_graph([helper.make_node('Neg', [x], ['yy'])] if r.random() < .6 else
                            [helper.make_node('If', ['flag'], ['yy'], then_branch=deep, else_branch=deep)], 'yes', [], [helper.make_tensor_value_info('yy', 1, None)])
    no = helper.make_graph([helper.make_node('Relu', [y], ['nn'])], 'no', [], [helper.make_tensor_value_info('nn', 1, None)])
    node = helper.make_node('If', ['flag'], ['ifout'], name='If', then_branch=yes, else_branch=no)
    nodes = list(m.graph.node)
    nodes.insert(at, node)
    del m.graph.node[:]
    m.graph.node.extend(nodes)
    m.graph.initializer.append(numpy_helper.from_array(np.array(True), 'flag'))
    m.graph.output.append(helper.make_tensor_value_info('ifout', 1, None))
    return [dict(n='If', t=t) for t in sorted({x, y})]


def plan(g, cap, sizes, pad):
    before = graph_state(g)
    how = (lambda: g.compress_memory()) if pad == 64 else (lambda: g.compress_memory(pad))
    ok, res, err = call(how)
    rec = dict(g=dict(nodes=[dict(n=n['n'], i=n['i'], o=n['o']) for n in before['nodes']], inp=before['inp'], out=before['out'], cap=cap),
               sizes=[dict(t=t, b=int(b)) for t, b in sizes.items()], pad=pad, ok=ok, err=err, plan=[], pool=0, same=True)
    if ok:
        try:
            mem, pool = res
            rec['plan'] = [dict(t=str(t), off=vlib.as_int(b[0]), len=vlib.as_int(b[1])) for t, b in mem.items()]
            rec['pool'] = vlib.as_int(pool)
        except Exception as e:
            rec.update(ok=False, err=f'result is no (map, size): {e}')
    rec['same'] = graph_state(g) == before
    return rec


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_MemPlan', workers=8, timeout=800, expect_actions=('Build', 'Outputs', 'Release', 'Alloc', 'Advance'), consts=dict(MaxNodes=3))
    r = vlib.rng('c11')
    cases = []
    behs = gd.gen(chk, ['Sort'], 900 if T else 250, nodes=(1, 6), ops=1)
    behs += gd.gen(chk, ['Sort'], 900 if T else 250, kinds=('Relu', 'Add', 'Split', 'Sum'), nodes=(6, 14), ops=1, inputs=2, weights=1)
    behs += gd.gen(chk, ['Skip', 'Dangle', 'Fuse'], 500 if T else 120, kinds=('Relu', 'Add', 'Split', 'Sum', 'Neg'), nodes=(4, 9), ops=2)
    for b in behs:
        g0 = b['g']
        m = gd.to_model(g0)
        cap = nested(m, r, g0) if r.random() < .12 else []
        if cap is None or (cap and len(b['ops']) > 1):
            cap, m = [], gd.to_model(g0)
        ok, g, err = call(lambda: ot.Model(m).graph)
        if not ok:
            chk.reject('load', 'loading raised ' + err, b)
            continue
        dead = False
        for o in b['ops']:
            if o['op'] not in ('sort', 'reorder'):
                dead = dead or not gd.step(g, o['op'], list(o['a']), list(o['b']), chk.dir)['ok']
        if dead or not g.nodemap:
            continue
        g.graph_reorder_nodes()
        st = graph_state(g)
        acts = dict.fromkeys(st['inp'] + [o for n in st['nodes'] for o in n['o'] if o])
        few = r.choice([SHAPES, SHAPES, r.sample(SHAPES, 2), [[64], [65], [2, 32, 32]]])
        for t in acts:
            s, d = r.choice(few), np.dtype(r.choice(TYPES))
            x = g.tensormap[t]
            x.update_shape(list(s))
            x.dtype = d.type
            acts[t] = int(np.prod(s)) * d.itemsize
        sig = 'memory:' + ';'.join(f"{n['op']}({','.join(n['i'])})->{','.join(n['o'])}" for n in st['nodes']) + '|' + ','.join(st['out'])
        for pad in r.sample(PADS, 2):
            cases.append(dict(sig=sig + f' pad={pad} sizes={list(acts.values())} cap={[c["t"] for c in cap]}', rec=plan(g, cap, acts, pad)))
    chk.actions['graphs'] = len(cases)
    # whole models with inferred shapes and types
    n = 0
    while n < (1500 if T else 200):
        m = mg.ModelGen(r)
        m.build(sinks=r.randint(0, 2), datas=r.randint(2, 8))
        if not m.nodes:
            continue
        mp = m.model('sym')
        if not m.outputs:
            continue
        n += 1
        a = r.randrange(m.na)
        compute = r.random() < .6

        def go():
            g = ot.Model(mp).graph
            g.graph_reorder_nodes()
            g.shape_infer(m.feed(a))
            if compute:
                g.profile()
                return g.get_compute_graph()
            return g
        ok, g, err = call(go)
        if not ok:
            if 'NotImplementedError' not in err:
                chk.reject('model ' + m.sig(), 'shapes or the compute graph raised ' + err)
            continue
        st = graph_state(g)
        acts = {t: m.val[t][a].nbytes for t in dict.fromkeys(st['inp'] + [o for nd in st['nodes'] for o in nd['o'] if o])}
        cases.append(dict(sig='model ' + m.sig(), rec=plan(g, [], acts, r.choice(PADS))))
    chk.actions['models'] = n
    chk.validate('T_MemPlan', cases, shard=150)
    chk.assumptions += ['execution follows the stored order of the nodes, which is a dependency order']
