"""C01: node reordering."""
import json
import graphdrv as gd
import vlib


def big(r, n):
    """A larger graph than TLC enumerates, with its storage order shuffled."""
    avail, nodes = ['x1', 'x2', 'w1', 'w2'], []
    for k in range(1, n + 1):
        kind = r.choice(['Relu', 'Add', 'Split', 'Sum', 'Clip', 'Neg', 'Dropout', 'Mul', 'LSTM', 'Concat', 'Split4'])
        ar, no = {'Relu': (1, 1), 'Add': (2, 1), 'Mul': (2, 1), 'Split': (1, 2), 'Sum': (3, 1), 'Clip': (3, 1), 'Neg': (1, 1), 'Dropout': (1, 2),
                  'LSTM': (3, 3), 'Concat': (5, 1), 'Split4': (1, 4)}[kind]
        recent = avail[-6:] if r.random() < .6 else avail
        ins = [r.choice(recent) for _ in range(ar)]
        if r.random() < .25:
            ins = [ins[0]] * ar
        if kind == 'Clip':
            ins = [ins[0]] + [i if r.random() < .6 else '' for i in ins[1:]]
        outs = ['t%d%s' % (k, c) for c in ['', 'b', 'c', 'd'][:no]]
        if kind == 'LSTM' and r.random() < .5:
            outs[r.randrange(3)] = ''
            if r.random() < .3:
                outs[0] = ''
            if not any(outs):
                outs[2] = 't%dc' % k
        kind = kind.replace('4', '')
        nodes.append(dict(n='n%d' % k, op=kind, i=ins, o=outs))
        avail += [o for o in outs if o]
    used = {i for nd in nodes for i in nd['i']}
    out = [t for nd in nodes for t in nd['o'] if t and t not in used]
    r.shuffle(nodes)
    return dict(nodes=nodes, inp=['x1', 'x2'], out=out, ini=['w1', 'w2'])


def rename(b, r):
    """The same model with unnamed and equally named nodes."""
    b = json.loads(json.dumps(b))
    for nd in b['g']['nodes']:
        nd['n'] = r.choice(['', '', 'a', 'a', nd['n'], nd['op'] + '_1', nd['op'] + '_0'])
    return b


def run(chk):
    if vlib.THOROUGH:
        gd.model(chk, ('Sort',), nodes=3, ops=1, shuffle=True, kinds=('Relu', 'Add', 'Split'))
    gd.model(chk, ('Sort',), nodes=3, ops=1, shuffle=True, kinds=('Add',) if not vlib.THOROUGH else ('Relu', 'Add', 'GRU'))
    gd.model(chk, ('Sort',), nodes=2 if not vlib.THOROUGH else 3, ops=1, shuffle=True, kinds=('Split', 'If'))
    kinds = ('Relu', 'Add', 'Split', 'Clip', 'Neg', 'Sum', 'Dropout', 'GRU', 'RandomNormal', 'LSTM', 'If')
    behs = gd.gen(chk, ['Sort'], 2500 if vlib.THOROUGH else 400, shuffle=True, ops=1, nodes=(3, 6), kinds=kinds)
    behs += gd.gen(chk, ['Sort', 'Skip', 'Dangle', 'Relate', 'SaveLoad'], 500 if vlib.THOROUGH else 120, shuffle=True, ops=4, nodes=(3, 6))
    behs += gd.gen(chk, ['Sort', 'Skip', 'Dangle', 'Relate', 'SaveLoad'], 500 if vlib.THOROUGH else 120, shuffle=True, ops=4, nodes=(3, 6), kinds=('Relu', 'Add', 'Split', 'If'))
    r = vlib.rng('c01')
    behs += [rename(b, r) for b in r.sample(behs[:400], 120)]
    for _ in range(400 if vlib.THOROUGH else 60):
        behs.append(dict(g=big(r, r.randrange(6, 30)), ops=[dict(op='reorder', a=[], b=[])] * r.choice([1, 2])))
    cases = gd.cases(chk, behs)
    chk.validate('T_Graph', cases, shard=100)
    api(chk, cases[:60])
    chk.assumptions.append('models are acyclic; every tensor has one producer')


def api(chk, cases):
    """model_reorder_nodes writes the reordered model; it must read back as a permutation in order."""
    import os, onnx
    import onnx_tool as ot
    recs = []
    for c in cases:
        g = c['info']['g']
        f = os.path.join(chk.dir, 'in.onnx')
        o = os.path.join(chk.dir, 'out.onnx')
        onnx.save_model(gd.to_model(g), f)
        if os.path.exists(o):
            os.unlink(o)
        ok, _, err = vlib.call(ot.model_reorder_nodes, f, o)
        if not ok:
            chk.reject('api:' + c['sig'], 'model_reorder_nodes raised ' + err, c['info'])
            continue
        ok, h, err = vlib.call(lambda: ot.Model(onnx.load_model(o), {}).graph)
        rec = json.loads(json.dumps(c['rec']))
        rec['steps'] = [dict(op='reorder', a=[], b=[], ok=ok, err=err, hasst=True, st=vlib.graph_state(h) if ok else gd.NOST,
                             parts=[], fop='', attrs=[], wantattrs=[])]
        # a file holds only the inputs and weights that are used
        rec['steps'][0]['st']['inp'] = rec['st']['inp']
        rec['steps'][0]['st']['ini'] = rec['st']['ini'] if set(rec['steps'][0]['st']['ini']) <= set(rec['st']['ini']) else ['?']
        recs.append(dict(sig='api:' + c['sig'], rec=rec, info=c['info']))
    chk.validate('T_Graph', recs, shard=60)
