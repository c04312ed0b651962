"""C23: built language models."""
import tempfile
import vlib, llmdrv


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Llm', workers=8, timeout=850, consts=dict(MaxL=2, MaxT=4) if T else dict(MaxL=2, MaxT=2))
    r = vlib.rng('c23')
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c23_') as d:
        for k in range(4000 if T else 900):
            cases.append(llmdrv.case(r, d))
    for c in cases:
        a = c['rec']['c']['arch'] if c['rec']['vis']['C'] == 0 else 'vision'
        chk.actions[a] = chk.actions.get(a, 0) + 1
    chk.validate('T_Llm', cases, shard=15)
    chk.assumptions += ['closed forms are those of the architecture table and the published per-operator costs; the cache has two planes for every layer, as the exported graphs use it']
