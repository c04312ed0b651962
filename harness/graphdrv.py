"""Drives the graph surgery API of the implementation and records projected states."""
import os, random, tempfile
import numpy, onnx
from onnx import helper, TensorProto
import vlib
from vlib import call, graph_state, names

ot = vlib.import_repo()
from onnx_tool.graph import Graph
from onnx_tool.utils import ModelConfig

REALOP = {}


def attrs_for(op, k):
    """Each node carries distinguishable attribute values of several kinds."""
    if op == 'Split':
        return dict(axis=k % 2)
    if op == 'Neg':     # every kind of attribute an operator may have
        return [dict(mode='x', ints=[k, 2]), dict(strs=['a', 'b'], alpha=.5), dict(ten=helper.make_tensor('t', TensorProto.INT64, [2, 1], [k, 3])),
                dict(floats=[1.5, 2.]), {}][k % 5]
    if op == 'Sum':
        return [dict(none=[]), dict(one=k, sten=helper.make_tensor('s', TensorProto.FLOAT, [], [2.5])), {}][k % 3]
    if op in ('Relu', 'Sigmoid', 'Add', 'Mul', 'Sum', 'Clip', 'Identity', 'Dropout'):
        return {}
    if op == 'RandomNormal':
        return dict(shape=[2, 2])
    return {}


def branches(nd, k):
    """Branches which take the captured tensors: directly, as their outputs, or nested once more."""
    c = nd['c']
    a, b = c[0], c[-1]
    T = lambda n: helper.make_tensor_value_info(n, TensorProto.FLOAT, None)
    loc = lambda s: f'L{k}_{s}'
    outs = [loc(f'o{j}') for j in range(len(nd['o']))]
    then = [helper.make_node('Neg', [a], [o], name=loc(f'then{j}')) for j, o in enumerate(outs)]
    if k % 3 == 0:
        deep = helper.make_graph([helper.make_node('Abs', [b], [loc('d')])], 'deep', [], [T(loc('d'))])
        flat = helper.make_graph([helper.make_node('Constant', [], [loc('e')], value=helper.make_tensor('v', TensorProto.FLOAT, [1], [1.]))], 'flat', [], [T(loc('e'))])
        els = [helper.make_node('If', [loc('q')], [outs[0]], then_branch=deep, else_branch=flat)]
        els += [helper.make_node('Add', [b, loc('z')], [o]) for o in outs[1:]]
        ini = [helper.make_tensor(loc('q'), TensorProto.BOOL, [], [True]), helper.make_tensor(loc('z'), TensorProto.FLOAT, [1], [2.])]
    elif k % 3 == 1:
        els, ini = [helper.make_node('Add', [b, loc('z')], [o]) for o in outs], [helper.make_tensor(loc('z'), TensorProto.FLOAT, [1], [2.])]
    else:
        return dict(then_branch=helper.make_graph(then, 'then', [], [T(o) for o in outs]),
                    else_branch=helper.make_graph([], 'else', [], [T(b) for o in outs]))
    return dict(then_branch=helper.make_graph(then, 'then', [], [T(o) for o in outs]),
                else_branch=helper.make_graph(els, 'else', [], [T(o) for o in outs], ini))


def to_model(g, shapes=None, extra_attrs=True, opset=13):
    nodes = []
    for k, nd in enumerate(g['nodes']):
        a = branches(nd, k) if nd['op'] == 'If' else attrs_for(nd['op'], k)
        n = helper.make_node(REALOP.get(nd['op'], nd['op']), nd['i'], nd['o'], name=nd['n'])
        n.attribute.extend(helper.make_attribute(x, v, attr_type=onnx.AttributeProto.INTS if v == [] else None) for x, v in sorted(a.items()))
        nodes.append(n)
    sh = lambda t: (shapes or {}).get(t, [2, 2])
    ins = [helper.make_tensor_value_info(t, TensorProto.FLOAT, sh(t)) for t in g['inp']]
    outs = [helper.make_tensor_value_info(t, TensorProto.FLOAT, sh(t)) for t in g['out']]
    ini = [helper.make_tensor(t, TensorProto.FLOAT, sh(t), [float(j) for j in range(int(numpy.prod(sh(t))))]) for t in g['ini']]
    gr = helper.make_graph(nodes, 'g', ins, outs, ini)
    return helper.make_model(gr, opset_imports=[helper.make_opsetid('', opset)])


def proto_state(gp):
    ini = [t.name for t in gp.initializer]
    return dict(nodes=[dict(n=nd.name, op=nd.op_type, i=names(nd.input), o=names(nd.output), c=vlib.captured(nd) if nd.op_type in ('If', 'Loop', 'Scan') else []) for nd in gp.node],
                inp=[i.name for i in gp.input if i.name not in ini], out=[o.name for o in gp.output], ini=sorted(ini))


EMPTY = dict(nodes=[], inp=[], out=[], ini=[])
NOST = dict(nodes=[], inp=[], out=[], ini=[], prod=[], cons=[], dyn=[], tm=[])


def content(a):
    b = onnx.AttributeProto()
    b.CopyFrom(a)
    b.name = ''
    return f'{b.type} ' + b.SerializeToString(deterministic=True).hex()


def value(v):
    return content(helper.make_attribute('v', v))


def attr_pairs(nd):
    """(name, value) pairs of a fused node as plain strings, read back through its proto."""
    return sorted([a.name, content(a)] for a in nd.proto.attribute)


def step(g, op, a, b, scratch, model=None):
    r = dict(op=op, a=a, b=b, ok=True, err='', hasst=True, st=NOST, parts=[], fop='', attrs=[], wantattrs=[])
    parts = []

    def do():
        if op == 'skip':
            g.skip_node(a[0])
        elif op == 'dangle':
            g.remove_dangling_nodes()
        elif op == 'remove':
            g.remove_node(a[0])
        elif op == 'remove_rec':
            g.remove_node(a[0], True)
        elif op == 'subtree':
            g.remove_subtree(a[0])
        elif op == 'reorder':
            g.graph_reorder_nodes()
        elif op == 'shapeops':
            from onnx_tool.fusion import removeShapeOps
            removeShapeOps(g)
        elif op == 'relate':
            g.update_tensor_relations()
        elif op == 'fuse':
            r['fop'] = 'Fused'
            want = []
            for n, x in enumerate(a):
                for at in g.nodemap[x].proto.attribute:
                    want.append([g.nodemap[x].proto.op_type + str(n) + '_' + at.name, content(at)])
            r['wantattrs'] = sorted(want)
            g.fuse_subgraph_node_names(list(a), 'Fused', b[0], True)
            r['attrs'] = attr_pairs(g.nodemap[b[0]])
        elif op == 'fuseio':
            r['fop'] = 'FusedIO'
            g.fuse_subgraph_iotensors(list(a), list(b), 'FusedIO', f'F{len(g.nodemap)}_', True)
        elif op == 'postfuse':
            main = g.nodemap[a[0]]
            want, count = [], 0
            for at in main.proto.attribute:
                if at.name == 'postop_count':
                    count = at.i
                else:
                    want.append([at.name, content(at)])
            for x in a[1:]:
                want.append([f'postop_{count}', value(g.nodemap[x].op_type)])
                for at in g.nodemap[x].proto.attribute:
                    want.append([f'postop_{count}_{at.name}', content(at)])
                count += 1
            want.append(['postop_count', value(count)])
            r['wantattrs'] = sorted(want)
            g.fuse_postop_node_names(list(a), True)
            r['attrs'] = attr_pairs(g.nodemap[a[0]])
        elif op == 'split':
            for p in g.get_subgraph(list(a), list(b)):
                parts.append(graph_state(p, relations=False))
        elif op == 'extract':
            gp = g.get_onnxgraph_by_nodenames(list(a))
            parts.append(proto_state(gp))
        elif op == 'saveload':
            f = os.path.join(scratch, 'm.onnx')
            g.save_model(f, rawmodel=model)
            parts.append(proto_state(onnx.load_model(f).graph))
        else:
            raise vlib.Machinery('unknown op ' + op)

    ok, _, err = call(do)
    r['ok'], r['err'] = ok, err
    if ok:
        ok2, st, err2 = call(graph_state, g)
        if ok2:
            r['st'] = st
        else:
            r['ok'], r['err'] = False, 'state unreadable: ' + err2
    r['parts'] = [dict(nodes=p['nodes'], inp=p['inp'], out=p['out'], ini=p['ini']) for p in parts]
    return r


def replay(beh, scratch, mcfg=None):
    """One behaviour {'g':..., 'ops': [{op,a,b}...]} on a freshly loaded graph."""
    g0 = beh['g']
    model = to_model(g0)
    ok, g, err = call(lambda: ot.Model(model, mcfg or {}).graph)
    rec = dict(g=g0, ok=ok, err=err, st=NOST, steps=[])
    if ok:
        rec['st'] = graph_state(g)
        for o in beh['ops']:
            s = step(g, o['op'], list(o['a']), list(o['b']), scratch, model)
            rec['steps'].append(s)
            if not s['ok']:
                break
    return rec


def sig(beh):
    return 'graph:' + '/'.join(o['op'] for o in beh['ops']) + ':' + \
        ';'.join(f"{n['op']}({','.join(n['i'])})->{','.join(n['o'])}" for n in beh['g']['nodes']) + \
        '|' + ','.join(beh['g']['out']) + '|' + ';'.join(','.join(o['a']) for o in beh['ops'])


def cases(chk, behs):
    out = []
    for b in behs:
        rec = replay(b, chk.dir)
        for o in rec['steps']:
            chk.actions[o['op']] = chk.actions.get(o['op'], 0) + 1
        out.append(dict(sig=sig(b), rec=rec, info=b))
    return out


def gen(chk, acts, num, kinds=('Relu', 'Add', 'Split', 'Clip', 'Neg', 'Sum', 'Dropout'), nodes=(3, 7), ops=4, shuffle=False,
        inputs=2, weights=2, cfg='Gen_GraphOps'):
    S = lambda xs: '{' + ','.join(f'"{x}"' for x in xs) + '}'
    return chk.generate('Gen_GraphOps', cfg, mode='sim', num=num, depth=60, timeout=400, consts=dict(
        MinNodes=nodes[0], MaxNodes=nodes[1], NInputs=inputs, NWeights=weights, Kinds=S(kinds), MaxOps=ops,
        Shuffle='TRUE' if shuffle else 'FALSE', Acts=S(acts)))


def model(chk, acts, nodes=3, ops=1, kinds=('Relu', 'Add', 'Split'), shuffle=False, timeout=600):
    S = lambda xs: '{' + ','.join(f'"{x}"' for x in xs) + '}'
    return chk.model_check('MC_GraphOps', workers=8, timeout=timeout, expect_actions=('Build', 'Outputs') + tuple(acts), consts=dict(
        MaxNodes=nodes, NInputs=1, NWeights=1, MaxOps=ops, Kinds=S(kinds), Shuffle='TRUE' if shuffle else 'FALSE', Acts=S(acts)))
