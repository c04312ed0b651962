"""C15: fusing nodes."""
import graphdrv as gd
import vlib

KINDS = ('Relu', 'Add', 'Split', 'Clip', 'Neg', 'Sum', 'Dropout', 'GRU', 'LSTM')


def run(chk):
    T = vlib.THOROUGH
    gd.model(chk, ('Fuse',), nodes=3, ops=1, kinds=('Relu', 'Add', 'Split') if T else ('Relu', 'Split'), timeout=800)
    behs = gd.gen(chk, ['Fuse'], 800 if T else 200, ops=1, nodes=(2, 6), kinds=KINDS + ('If',))
    behs += gd.gen(chk, ['Fuse', 'Skip', 'Dangle', 'SaveLoad'], 600 if T else 150, ops=3, nodes=(3, 6), kinds=('Relu', 'Add', 'If'))
    behs += gd.gen(chk, ['PostFuse'], 800 if T else 200, ops=2, nodes=(2, 6), kinds=KINDS)
    behs += gd.gen(chk, ['Fuse', 'PostFuse', 'Sort', 'SaveLoad', 'Relate', 'Skip', 'Dangle'], 800 if T else 200, ops=5, nodes=(4, 8))
    behs += gd.gen(chk, ['FuseIo'], 600 if T else 150, ops=1, nodes=(2, 7), kinds=('Relu', 'Add', 'Split', 'Neg'))
    more = gd.gen(chk, ['FuseIo'], 300 if T else 60, ops=1, nodes=(3, 7), kinds=('Relu', 'Add'), inputs=1, weights=1)
    for b in more:
        b['ops'] += [dict(op=o, a=[], b=[]) for o in ('reorder', 'dangle', 'relate', 'saveload')]
    behs += more
    chk.validate('T_Graph', gd.cases(chk, behs), shard=80)
    api(chk, behs)


def api(chk, behs):
    """model_opfusion writes the fused, ordered model: it must read back as the fusion of the model."""
    import os, onnx, json
    import onnx_tool as ot
    cases = []
    for b in [b for b in behs if len(b['ops']) == 1 and b['ops'][0]['op'] in ('fuse', 'fuseio')][:60]:
        f, o = os.path.join(chk.dir, 'in.onnx'), os.path.join(chk.dir, 'out.onnx')
        onnx.save_model(gd.to_model(b['g']), f)
        if os.path.exists(o):
            os.unlink(o)
        op = b['ops'][0]
        fused = [n for n in b['g']['nodes'] if n['n'] in op['a']]
        if any(set(n['c']) & set(m['o']) for n in fused for m in fused):
            continue    # a fused branch takes a fused tensor: the file cannot say that it is no input
        if op['op'] == 'fuse':
            ok, _, err = vlib.call(ot.model_opfusion, f, 'Fused', op['b'][0], o, nodenames=list(op['a']))
        else:
            ok, _, err = vlib.call(ot.model_opfusion, f, 'FusedIO', 'Fio', o, in_tensor_names=list(op['a']), out_tensor_names=list(op['b']))
        rec = gd.replay(dict(g=b['g'], ops=[dict(op='reorder', a=[], b=[])] * 2), chk.dir)
        if not rec['ok']:
            continue
        if ok:
            ok, h, err = vlib.call(lambda: ot.Model(onnx.load_model(o), {}).graph)
        st = vlib.graph_state(h) if ok else gd.NOST
        if ok:
            st['inp'], st['ini'] = rec['st']['inp'], rec['st']['ini']   # a file holds only what is used
        s = dict(op=op['op'], a=op['a'], b=op['b'], ok=ok, err=err, hasst=True, st=st, parts=[], fop='Fused' if op['op'] == 'fuse' else 'FusedIO', attrs=[], wantattrs=[])
        topo = dict(s, op='topo')
        rec['steps'] = [s, topo]
        cases.append(dict(sig='api:' + gd.sig(b), rec=rec, info=b))
    chk.actions['model_opfusion'] = len(cases)
    chk.validate('T_Graph', cases, shard=30)
