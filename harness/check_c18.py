"""C18: skip / remove / remove-dangling / remove-subtree over histories."""
import graphdrv as gd
import vlib

ACTS = ['Skip', 'Dangle', 'Remove', 'RemoveRec', 'Subtree', 'Sort', 'Relate']
KINDS = ('Relu', 'Add', 'Split', 'Clip', 'Neg', 'Sum', 'Dropout', 'GRU', 'LSTM', 'RandomNormal', 'If')


def run(chk):
    T = vlib.THOROUGH
    acts = ('Skip', 'Dangle', 'Remove', 'RemoveRec')
    gd.model(chk, acts, nodes=3, ops=1, kinds=('Relu', 'Add', 'Split') if T else ('Relu', 'Split'), timeout=800)
    gd.model(chk, acts, nodes=3 if T else 2, ops=2, kinds=('Relu', 'Add'), timeout=800)
    gd.model(chk, acts, nodes=3 if T else 2, ops=2, kinds=('Relu', 'If'), timeout=800)
    behs = gd.gen(chk, ACTS, 1500 if T else 250, ops=5, nodes=(4, 7), kinds=KINDS)
    behs += gd.gen(chk, ['Skip'], 600 if T else 150, ops=2, nodes=(2, 5))
    behs += gd.gen(chk, ['Skip', 'RemoveRec'], 600 if T else 120, ops=3, nodes=(3, 6), shuffle=True)
    behs += gd.gen(chk, ACTS, 800 if T else 200, ops=4, nodes=(3, 6), kinds=('Relu', 'Add', 'Split', 'If'))
    behs += gd.gen(chk, ACTS + ['Fuse'], 500 if T else 120, ops=6, nodes=(5, 8))
    chk.validate('T_Graph', gd.cases(chk, behs), shard=80)
    # a library pass built from skipping
    more = gd.gen(chk, ['Sort'], 500 if T else 120, ops=1, nodes=(3, 7),
                  kinds=('Relu', 'Add', 'Reshape', 'Flatten', 'Squeeze', 'Unsqueeze', 'Split'))
    for b in more:
        b['ops'].append(dict(op='shapeops', a=[], b=[]))
    chk.validate('T_Graph', gd.cases(chk, more), shard=80)
