"""C04: inferred shapes and element types of every operator, and the values it computes on the way."""
import opsdrv as od
import vlib

MANY = ['Conv', 'ConvTranspose', 'MaxPool', 'AveragePool', 'Slice', 'Pad', 'Reshape', 'Resize', 'Einsum', 'Split', 'MatMul', 'Gemm', 'Squeeze', 'Unsqueeze',
        'ReduceMean', 'ReduceSum', 'Concat', 'Gather', 'GatherND', 'Expand', 'Transpose', 'TopK', 'Add', 'Where', 'Flatten', 'OneHot', 'ArgMax', 'Tile',
        'LSTM', 'GRU', 'Upsample', 'QLinearConv', 'ConvInteger', 'MatMulInteger', 'QLinearMatMul', 'Cast', 'ScatterND', 'Range']


def cases(chk, gen, run, tag):
    out = []
    for i in gen:
        out.append(dict(sig=i.sig(), rec=run(i, vlib.rng('c04' + tag))))
        chk.actions[tag + ':' + i.op] = chk.actions.get(tag + ':' + i.op, 0) + 1
    return out


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Ops', consts={'MaxDim': 4 if T else 3}, workers=4)
    r = vlib.rng('c04')
    k = 12 if T else 6
    ops = [o for o in od.OPS if o != 'NonZero']          # the size of NonZero's result is data
    cs = cases(chk, od.instances(r, 12 * k, ops), od.run_shape, 'shape')
    cs += cases(chk, od.instances(r, 40 * k, MANY), od.run_shape, 'shape')
    chk.validate('T_Ops', cs, shard=400 if T else 250)
    chk.validate('T_Ops', cases(chk, od.mutants(r, 15 * k), od.run_shape, 'judge'), shard=250)
    cs = cases(chk, od.instances(r, 16 * k), od.run_value, 'value')
    chk.validate('T_Ops', cs, shard=150)
    chk.assumptions += ['values are compared where they are rational and exactly representable; element types where the operator defines them']
