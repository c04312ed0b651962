"""C08: the MACs of every operator are its published cost on the inferred shapes."""
import modelgen as mg
import opsdrv as od
import sessiondrv as sd
import vlib


TWICE = ('Sum', 'Max', 'Min', 'Add', 'Mul', 'Sub', 'Less', 'Greater', 'Equal')


class OneOp:
    """A one-node model; some operands are weights."""

    def __init__(self, inst, r):
        self.i, self.r = inst, r
        free = [k for k, x in enumerate(inst.ins) if x is not None and k not in inst.const]
        if free and r.random() < .7:
            inst.const |= set(r.sample(free, r.randint(0, len(free))))
        elif len(free) > 1:
            inst.const |= set(free[1:])
        self.twice = 1 if inst.op in TWICE and len(inst.ins) > 1 and r.random() < .15 else 0
        if self.twice:                          # one tensor as two operands
            inst.ins[1] = inst.ins[0]
            inst.const.discard(0), inst.const.discard(1)
        self.m, self.feed, self.outs = inst.model(r)
        if self.twice:
            self.m.graph.node[0].input[1] = 'x0'
            self.m.graph.input.remove(next(v for v in self.m.graph.input if v.name == 'x1'))
            self.feed.pop('x1')

    def rec(self, declare):
        i = self.i
        name = lambda k: '' if i.ins[k] is None else 'x0' if self.twice and k == 1 else f'x{k}'
        live = [k for k, x in enumerate(i.ins) if x is not None and not (self.twice and k == 1)]
        return dict(inputs=[dict(n=f'x{k}', s=list(i.ins[k].shape), d=od.dtype_name(i.ins[k].dtype)) for k in live if k not in i.const],
                    inits=[dict(n=f'x{k}', **od.enc_in(i.ins[k])) for k in live if k in i.const],
                    nodes=[dict(n='node_under_test', op=i.op, a=od.enc_attr(i.a), i=[name(k) for k in range(len(i.ins))], o=self.outs)],
                    outputs=self.outs, steps=[])


def one(inst, r, chk):
    m = OneOp(inst, r)
    d = sd.Driver(m, m.m, 'fixed')
    if d.shape(m.feed):
        d.profile(metric=r.choice(['MACs', 'FLOPs']))
    d.close()
    chk.actions[inst.op] = chk.actions.get(inst.op, 0) + 1
    return dict(sig=m.i.sig() + ' twice' * m.twice, rec=d.rec)


MANY = ['Conv', 'ConvTranspose', 'MatMul', 'Gemm', 'MaxPool', 'AveragePool', 'GlobalAveragePool', 'LSTM', 'GRU', 'Einsum', 'LayerNormalization', 'QLinearConv',
        'ConvInteger', 'QLinearMatMul', 'MatMulInteger', 'BatchNormalization', 'InstanceNormalization', 'LRN', 'Resize', 'Upsample', 'Gather', 'Add', 'Mul',
        'Sum', 'Softmax', 'ReduceMean', 'ReduceSum', 'ReduceL2', 'ReduceMax', 'ReduceMin', 'ReduceProd', 'PRelu']


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Cost', consts={'M': 3 if T else 2}, workers=6)
    r = vlib.rng('c08')
    k = 16 if T else 8
    ops = [o for o in od.OPS if o != 'NonZero']
    cases = [one(i, r, chk) for i in od.instances(r, 8 * k, ops)] + [one(i, r, chk) for i in od.instances(r, 20 * k, [o for o in MANY if o in od.OPS])]
    chk.validate('T_Session', cases, shard=200)
    # the same model at several sizes: the cost follows the sizes of each
    cases = []
    while len(cases) < 110 * k:
        m = mg.ModelGen(r).build(sinks=r.randint(0, 1), datas=r.randint(2, 6))
        if not m.nodes:
            continue
        d = sd.Driver(m, m.model('sym'), 'sym')
        for a in range(m.na):
            if d.shape(m.feed(a)):
                d.profile(metric=r.choice(['MACs', 'FLOPs']))
        d.close()
        cases.append(dict(sig='sizes ' + m.sig(), rec=d.rec))
    chk.validate('T_Session', cases, shard=20)
    chk.assumptions += ['the published weights per element are those of the table in node.py; figures below 2^31']
