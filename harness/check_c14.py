"""C14: splitting and extracting sub-graphs."""
import graphdrv as gd
import vlib

KINDS = ('Relu', 'Add', 'Split', 'Clip', 'Neg', 'Sum', 'Dropout', 'GRU', 'LSTM', 'If')


def run(chk):
    T = vlib.THOROUGH
    gd.model(chk, (), nodes=3, ops=0, kinds=('Relu', 'Add', 'Split') if T else ('Relu', 'Split'), timeout=800)
    behs = gd.gen(chk, ['Split'], 800 if T else 200, ops=1, nodes=(2, 6), kinds=KINDS)
    behs += gd.gen(chk, ['Extract'], 800 if T else 200, ops=2, nodes=(2, 6), kinds=KINDS)
    behs += gd.gen(chk, ['Extract', 'Split'], 600 if T else 150, ops=2, nodes=(3, 7), shuffle=True, kinds=KINDS)
    behs += gd.gen(chk, ['Split', 'Extract', 'Skip', 'Dangle', 'Fuse', 'RemoveRec', 'Sort'], 800 if T else 150, ops=5, nodes=(4, 8))
    behs += gd.gen(chk, ['Extract', 'Split'], 600 if T else 150, ops=2, nodes=(2, 6), shuffle=True, kinds=('Relu', 'Add', 'If'))
    chk.validate('T_Graph', gd.cases(chk, behs), shard=80)
    api(chk, behs)


def api(chk, behs):
    """model_subgraph writes the parts as model files: read back they are the same parts."""
    import os, shutil, tempfile, onnx
    import onnx_tool as ot
    cases = []
    pick = [b for b in behs if len(b['ops']) == 1 and b['ops'][0]['op'] in ('split', 'extract')]
    for b in pick[::max(1, len(pick) // (300 if vlib.THOROUGH else 70))]:
        rec = gd.replay(dict(g=b['g'], ops=[]), chk.dir)
        if not rec['ok']:
            continue
        d = tempfile.mkdtemp(dir=chk.dir)
        f = os.path.join(d, 'net.v1.onnx')
        onnx.save_model(gd.to_model(b['g']), f)
        op, parts = b['ops'][0], []

        def go():
            if op['op'] == 'split':
                ot.model_subgraph(f, in_tensor_names=list(op['a']), out_tensor_names=list(op['b']), save_folder=d)
                names = ['_level0', '_level1', '_level2']
            else:
                ot.model_subgraph(f, nodenames=list(op['a']), save_folder=d)
                names = ['_subgraph']
            stem = ot.loadmodel(f).modelname
            for n in names:
                if not os.path.exists(os.path.join(d, stem + n + '.onnx')):
                    parts.append(gd.EMPTY)      # a part without nodes is no model and not written
                    continue
                m = onnx.load_model(os.path.join(d, stem + n + '.onnx'))
                if [(o.domain, o.version) for o in m.opset_import] != [('', 13)]:
                    raise ValueError('opset imports lost')
                parts.append(gd.proto_state(m.graph))
        ok, _, err = vlib.call(go)
        shutil.rmtree(d)
        rec['steps'] = [dict(op=op['op'], a=list(op['a']), b=list(op['b']), ok=ok, err=err, hasst=True, st=rec['st'], parts=parts, fop='', attrs=[], wantattrs=[])]
        cases.append(dict(sig='api:' + gd.sig(b), rec=rec, info=b))
    chk.actions['model_subgraph'] = len(cases)
    chk.validate('T_Graph', cases, shard=30)
