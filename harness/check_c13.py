"""C13: compute graph extraction."""
import json
import graphdrv as gd
import vlib
from vlib import call, graph_state, dims

ot = gd.ot


def record(g, model=None, reorder=False, infer=None):
    """Extract the compute graph of a loaded graph and project everything around it."""
    was = {}
    if infer is not None:
        g.shape_infer(infer)
        was = {t: dims(v.get_shape()) for t, v in g.tensormap.items()}
    before = graph_state(g)
    ok, cg, err = call(g.get_compute_graph)
    rec = dict(before=before, ok=ok, err=err, cg=gd.NOST, after=gd.NOST, dynseq=[], shapes=[])
    if ok:
        rec['cg'] = graph_state(cg)
        rec['after'] = graph_state(g)
        rec['dynseq'] = vlib.names(cg.dynamics)
        rec['shapes'] = [dict(t=t, was=s, now=dims(cg.tensormap[t].get_shape()) if t in cg.tensormap else [-1]) for t, s in was.items()]
    return rec


def sig(g, what):
    return what + ':' + ';'.join(f"{n['op']}({','.join(n['i'])})->{','.join(n['o'])}" for n in g['nodes']) + '|' + ','.join(g['out'])


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Compute', workers=8, timeout=800, expect_actions=('Build', 'Outputs'), consts=dict(MaxNodes=3))
    behs = []
    for lo, hi, num in ((2, 5, 300), (5, 10, 300), (8, 14, 150)):
        behs += chk.generate('Gen_Compute', mode='sim', num=num * (5 if T else 1), depth=40,
                             consts=dict(MinNodes=lo, MaxNodes=hi, NInputs=2, NWeights=2, Kinds='{"Relu"}'))
    r = vlib.rng('c13')
    cases = []
    for b in behs:
        g0 = b['g']
        m = gd.to_model(g0, opset=18)
        shuffled = r.random() < .3
        ok, g, err = call(lambda: ot.Model(m).graph)
        if not ok:
            chk.reject(sig(g0, 'load'), 'loading raised ' + err, b)
            continue
        if shuffled:
            g.graph_reorder_nodes()
        rec = record(g)
        if r.random() < .2 and rec['ok']:
            rec = record(g)          # extracting twice gives the same again
        cases.append(dict(sig=sig(g0, 'compute'), rec=rec, info=b))
    chk.actions['extract'] = len(cases)
    chk.validate('T_Compute', cases, shard=100)
    models(chk)


def models(chk):
    """Whole models with real shape arithmetic: shapes inferred before stay available."""
