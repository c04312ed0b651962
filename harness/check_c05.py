"""C05: shape inference of whole models whose shapes are computed at run time."""
import modelgen as mg
import sessiondrv as sd
import vlib


def case(r, tag=''):
    m = mg.ModelGen(r).build(sinks=r.randint(1, 4), datas=r.randint(1, 4))
    declare = r.choice(['sym', 'unknown', 'fixed'])
    mp = m.model(declare)
    d = sd.Driver(m, mp, declare)
    for a in range(m.na):
        d.shape(m.feed(a))
    d.close()
    return m, d


def run(chk):
    n = 3500 if vlib.THOROUGH else 800
    cases = []
    r = vlib.rng('c05')
    while len(cases) < n:
        m, d = case(r)
        if not m.nodes:
            continue
        for nd in m.nodes:
            chk.actions[nd[0]] = chk.actions.get(nd[0], 0) + 1
        cases.append(dict(sig=m.sig(), rec=d.rec))
    chk.validate('T_Session', cases, shard=40)
    chk.assumptions += ['every generated model is valid for the assignments used: onnx.reference executed it', 'dimensions up to 40, integers below 2^31']
