"""C24: latency of built language models on described devices."""
import tempfile
import vlib, llmdrv


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Llm', workers=8, timeout=850, consts=dict(MaxL=2, MaxT=4) if T else dict(MaxL=2, MaxT=2))
    r = vlib.rng('c24')
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c24_') as d:
        for k in range(3000 if T else 700):
            cases.append(llmdrv.case(r, d, lats=2 if k % 2 else 3))
    for c in cases:
        for o in c['rec']['runs']:
            for l in o['lats']:
                key = 'no device' if not l['has'] else 'several devices' if l['dev']['link'] and l['dev']['num'] > 1 else 'one device'
                chk.actions[key] = chk.actions.get(key, 0) + 1
    chk.validate('T_Llm', cases, shard=10)
    chk.assumptions += ['devices with power-of-two rates, so the stated times are exact numbers in floating point']
