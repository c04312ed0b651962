"""C27: language-model kernels compute their stated functions."""
import numpy as np
import vlib
from vlib import call
import infdrv as d, llmdrv
from infdrv import torch
import contextlib, io, os, sys, tempfile, types

F4 = np.float32
LN2 = float(np.log(2))
T = lambda x: torch.from_numpy(np.array(x, copy=True))
fresh = lambda s: T(np.full(s, np.nan, F4))


def fx(e):
    return int(round(float(e) * 10000)) if np.isfinite(e) and abs(e) < 90000 else 10 ** 9


flat = lambda x: [fx(e) for e in np.asarray(x).reshape(-1)]
K = lambda n: d.kernels.KernelRegistry.get(n)


def ints(r, s, lo, hi):
    return np.array([r.randint(lo, hi) for _ in range(int(np.prod(s)))], F4).reshape(s)


def heads_last(x):
    """[B, S, H, D] as the operand of three dimensions."""
    return np.ascontiguousarray(x.reshape(*x.shape[:2], -1))


def heads_first(x):
    return np.ascontiguousarray(x.transpose(0, 2, 1, 3))


def attn(r):
    """A conversation: layers take turns, the position advances, goes back or starts again."""
    kv = r.choice([1, 1, 2, 3])
    heads, dim, layers, B = kv * r.choice([1, 2, 3]), r.choice([1, 2, 4]), r.choice([1, 2, 3]), r.choice([1, 1, 2])
    ctx = r.randint(2, 5)
    width = kv * dim + r.choice([0, 0, 1, dim])
    planes = 2 * layers
    unit = LN2 * dim ** .5
    cache = ints(r, [B, planes, ctx, width], -9, 9)
    real = cache.copy()
    real[:, 0::2] *= F4(unit)
    c = T(real)
    back = lambda x: [int(round(float(e))) if np.isfinite(e) and abs(e - round(float(e))) < .01 else 10 ** 9 for e in x.reshape(-1)]

    def enc(x):
        y = x.astype(np.float64).copy()
        y[:, 0::2] /= unit
        return back(y)
    rec = dict(kind='attn', heads=heads, kv=kv, dim=dim, batch=B, planes=planes, ctx=ctx, width=width, cache0=[int(e) for e in cache.reshape(-1)], calls=[])
    at = [0] * layers
    four = r.random() < .4
    sig = []
    for _ in range(r.randint(1, 6)):
        layer = r.randrange(layers)
        cached = r.random() < .85
        if cached:
            t = r.random()
            if t < .15:
                at[layer] = 0
            elif t < .3 and at[layer]:
                at[layer] = r.randrange(at[layer])
            if at[layer] == ctx:
                at[layer] = r.randrange(ctx)
        past = at[layer] if cached else 0
        n = r.randint(1, min(3, ctx - past)) if r.random() < .85 else ctx - past
        q = ints(r, [B, n, heads, dim], -1, 1) if r.random() < .85 else np.zeros([B, n, heads, dim], F4)
        k, v = ints(r, [B, n, kv, dim], -1, 1), ints(r, [B, n, kv, dim], -5, 5)
        form = heads_first if four else heads_last
        pos = r.choice([torch.tensor(past), torch.tensor([past]), T(np.full([1, 1], past, np.int64)), torch.tensor(float(past)), T(np.full([B, n], past, np.int64) + np.arange(n))])
        if not past and r.random() < .2:
            pos = None
        ins = [T(form(q)), T(form((k * F4(unit)).astype(F4))), T(form(v))] + ([pos, c] if cached else [])
        a = dict(head_num=heads, head_size=dim, layer_i=layer)
        if kv != heads or r.random() < .7:
            a['kv_head_num'] = kv
        o = fresh([B, n, heads * dim])
        ok, _, err = call(lambda: K('SDPA').run(ins, [o], a))
        if 'Unsupported' in err:
            return 'unsupported'
        i = lambda x: x.astype(int).tolist()
        rec['calls'].append(dict(layer=layer, past=past, n=n, cached=cached, q=i(q), k=i(k), v=i(v), ok=ok, err=err, out=flat(o.a) if ok else [], cache=enc(c.a)))
        sig.append(f"{'cached' if cached else 'alone'} layer={layer} past={past} n={n}")
        if not ok:
            break
        if cached:
            at[layer] = past + n
    return dict(sig=f"attention {'4-D' if four else '3-D'} heads={heads}/{kv} dim={dim} batch={B} ctx={ctx} width={width}: " + '; '.join(sig), rec=rec)


def rope(r):
    half, n, heads, B, top = r.randint(1, 3), r.randint(1, 4), r.randint(1, 3), r.choice([1, 1, 2]), r.randint(4, 9)
    x = ints(r, [B, n, heads, 2 * half], -9, 9)
    four = r.random() < .5
    turn = [[r.randint(0, 3) for _ in range(half)] for _ in range(top)]
    co, si = (np.array([[f[t] for t in row] for row in turn], F4) for f in ([1, 0, -1, 0], [0, 1, 0, -1]))
    if r.random() < .5:
        start = r.randint(0, top - 1)
        pos = np.array([[min(start + t, top - 1) for t in range(n)]] * B)
    else:
        pos = np.array([[r.randrange(top) for _ in range(n)] for _ in range(B)])
    lead = r.choice([[1], [1, 1]])
    o = fresh([B, heads, n, 2 * half] if four else [B, n, heads * 2 * half])
    ins = [T(heads_first(x) if four else heads_last(x)), T(co.reshape(lead + list(co.shape))), T(si.reshape(lead + list(si.shape))), T(pos.astype(r.choice([np.int64, np.float32])))]
    ok, _, err = call(lambda: K('Rope').run(ins, [o], {}))
    if 'Unsupported' in err:
        return 'unsupported'
    y = (o.a.transpose(0, 2, 1, 3) if four else o.a.reshape(B, n, heads, 2 * half)) if ok else np.zeros(0)
    rec = dict(kind='rope', half=half, batch=B, n=n, heads=heads, x=x.astype(int).tolist(), pos=pos.tolist(), cos=co.astype(int).tolist(), sin=si.astype(int).tolist(), ok=ok, err=err,
               out=[[[flat(h) for h in t] for t in b] for b in y] if ok else [])
    return dict(sig=f"rope {'4-D' if four else '3-D'} half={half} heads={heads} batch={B} tables={len(lead) + 2}-D pos={pos.tolist()}", rec=rec)


def square(r, n, rms, eps):
    """A vector whose spread plus eps is the square of an integer."""
    for _ in range(4000):
        x = [r.randint(-6, 6) for _ in range(n)]
        if not rms and sum(x) % n:
            continue
        m = 0 if rms else sum(x) // n
        s = sum((e - m) ** 2 for e in x)
        if s % n == 0 and s // n + eps > 0 and int((s // n + eps) ** .5 + .5) ** 2 == s // n + eps:
            return x
    m = int((4 - eps) ** .5) if 0 <= 4 - eps and int((4 - eps) ** .5) ** 2 == 4 - eps else 0
    return [m if i % 2 else -m for i in range(n)] if n % 2 == 0 else [0] * n


def norm(r):
    op = r.choice(['LayerNormalization'] * 3 + ['Layernrom'])
    rms = op == 'LayerNormalization' and r.random() < .5
    n = r.choice([1, 2, 3, 4, 6])
    fine = op == 'Layernrom' or r.random() < .2          # the usual small epsilon
    eps = 0 if fine else r.choice([1, 3, 4, 5, 8, 9])
    per = op == 'LayerNormalization' and r.random() < .4
    h = r.randint(2, 4) if per else 1
    B, S = r.choice([1, 2]), r.randint(1, 3)
    rows = [square(r, n, rms, eps) for _ in range(B * S * h)]
    if fine:
        rows = [x if len(set(x)) > 1 or rms and any(x) else None for x in rows]
        if None in rows:
            return None
    x = np.array(rows, F4).reshape(B, S, h * n)
    if not per and r.random() < .3:
        x = x.reshape(B * S, n)
    w = ints(r, [n], -3, 3)
    hasb = op == 'Layernrom' or not rms and r.random() < .6
    b = ints(r, [n], -4, 4)
    a = {} if op == 'Layernrom' else {'epsilon': float(eps)}
    if fine and op == 'LayerNormalization':
        a = {} if r.random() < .5 else {'epsilon': 1e-6}
    if rms:
        a['type'] = 'rms'
    elif op == 'LayerNormalization' and r.random() < .3:
        a['type'] = 'layer'
    if op == 'Layernrom' and r.random() < .5:
        a['ReduceMean0_axes'] = [-1]
    if op == 'LayerNormalization' and r.random() < .3:
        a['axis'] = -1
    o = fresh(x.shape)
    ok, _, err = call(lambda: K(op).run([T(x), T(w)] + ([T(b)] if hasb else []), [o], a))
    if 'Unsupported' in err:
        return 'unsupported'
    y = o.a.reshape(-1, n)
    rec = dict(kind='norm', op=op, rms=rms, eps=eps, tol=30 if fine else 4, w=w.astype(int).tolist(), hasb=hasb, b=b.astype(int).tolist(), ok=ok, err=err,
               rows=[dict(x=x_, fx=flat(y_)) for x_, y_ in zip(rows, y)])
    return dict(sig=f"{op} {a} {list(x.shape)} weight={w.tolist()} bias={hasb}", rec=rec)


def point(r):
    t = r.choice(['Mad', 'Silu', 'Gelu', 'RangeGather', 'GatherElements'])
    s = [r.randint(1, 3) for _ in range(r.randint(1, 3))]
    if t == 'Mad':
        x = ints(r, s, -9, 9)
        w, b = (ints(r, r.choice([s, s[-1:], [1]]), -9, 9) for _ in 'wb')
        o = fresh(s)
        ok, _, err = call(lambda: K(t).run([T(x), T(w), T(b)], [o], {}))
        i = lambda z: np.broadcast_to(z, s).astype(int).reshape(-1).tolist()
        rec = dict(kind='mad', x=i(x), w=i(w), b=i(b), ok=ok, err=err, fx=flat(o.a))
        sig = f'{s} {list(w.shape)} {list(b.shape)}'
    elif t == 'Silu':
        x = ints(r, s, -8, 8)
        o = fresh(s)
        ok, _, err = call(lambda: K(t).run([T((x * F4(LN2)).astype(F4))], [o], {}))
        rec = dict(kind='silu', n=x.astype(int).reshape(-1).tolist(), ok=ok, err=err, fx=[fx(e / LN2) for e in o.a.reshape(-1)])
        sig = f'{s}'
    elif t == 'Gelu':
        x = ints(r, s, -4, 4)
        o = fresh(s)
        tanh = r.random() < .4
        a = {'approximate': r.choice(['tanh', b'tanh'])} if tanh else {} if r.random() < .7 else {'approximate': 'none'}
        ok, _, err = call(lambda: K(t).run([T(x)], [o], a))
        rec = dict(kind='gelu', tanh=tanh, x=x.astype(int).reshape(-1).tolist(), ok=ok, err=err, fx=flat(o.a))
        sig = f'{x.tolist()} {a}'
    elif t == 'RangeGather':
        top, wide = r.randint(1, 6), r.randint(1, 3)
        tab = ints(r, [top, wide], -9, 9)
        past = r.randrange(top)
        n = r.randint(1, top - past)
        o = fresh([n, wide])
        sc = lambda e: r.choice([torch.tensor(e), torch.tensor([e])])
        ok, _, err = call(lambda: K(t).run([sc(n), sc(0), sc(0), sc(0), T(tab), sc(past)], [o], {}))
        rec = dict(kind='range', table=tab.astype(int).tolist(), past=past, n=n, ok=ok, err=err, out=[flat(e) for e in o.a])
        sig = f'{n} from {past} of {top}'
    else:
        ax = r.randrange(len(s))
        x = ints(r, s, -9, 9)
        si = list(s)
        si[ax] = r.randint(1, 4)
        idx = ints(r, si, -s[ax], s[ax] - 1).astype(np.int64)
        o = fresh(si)
        a = {'axis': ax - r.choice([0, len(s)])}
        if ax == 0 and r.random() < .3:
            a = {}
        ok, _, err = call(lambda: K(t).run([T(x), T(idx.astype(r.choice([np.int64, np.int32])))], [o], a))
        lines = lambda z: np.moveaxis(z, ax, -1).reshape(-1, z.shape[ax])
        rec = dict(kind='gather', x=lines(x).astype(int).tolist(), idx=lines(idx).tolist(), ok=ok, err=err, out=[flat(e) for e in lines(o.a)])
        sig = f'{s} {idx.tolist()} {a}'
    if 'Unsupported' in err:
        return 'unsupported'
    return dict(sig=t + ' ' + sig, rec=rec)


# ---- whole decoders: read in pieces and at once
FILES = {}


class Weights:
    """The part of safetensors that is called: names and tensors of a file."""
    def __init__(self, path, framework=None):
        self.w = FILES[path]

    __enter__ = lambda self: self
    __exit__ = lambda self, *a: False
    keys = lambda self: list(self.w)
    get_tensor = lambda self, k: T(self.w[k])


DECODERS = ['LlamaForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Phi3ForCausalLM', 'Phi3SmallForCausalLM', 'PhiForCausalLM', 'GPTJForCausalLM',
            'GPT2LMHeadModel', 'MistralForCausalLM']


def reader(kw, n, B, ctx, w, r, folder, renamed):
    """The engine for a description; with a cache of ctx positions unless ctx is 0; some weights have other names in the file."""
    import infer
    b = llmdrv.llm.Builder(**kw)
    b.build_graph([B, n])
    if ctx:
        b.add_kv_cache(ctx, 0)
    path = os.path.join(folder, f'm{ctx}.onnx')
    b.save_graph(path)
    g = d.ot.Model(path, {'constant_folding': True}).graph
    for t in sorted(g.tensormap):
        if t in w or not ('weight' in t or 'bias' in t):
            continue
        x = np.asarray(ints(r, list(g.tensormap[t].get_shape()) or [1], -4, 4) / 4, F4).reshape(g.tensormap[t].get_shape())
        w[t] = x.T.copy() if g.nodemap[g.consumedby[t][0]].op_type == 'MatMul' else x
    other = {t: 'hub.' + t for t in w if renamed and r.random() < .6}
    FILES[path] = {other.get(t, t): x for t, x in w.items()}
    desc = {'ids': (B, 'seq'), 'position': (B, 'seq')}
    if ctx:
        desc.update(n_past=(), kv_cache=tuple(g.tensormap['kv_cache'].get_shape()))
    gi = infer.GraphInfer(path, desc, {'seq': (1, n)}, safetensors_path=path, **(dict(weight_map=other) if renamed else {}))

    def read(ids, a, e, first, **more):
        f = {'ids': torch.tensor([x[a:e] for x in ids]), 'position': torch.tensor([list(range(a, e))] * B)}
        f = {i: x for i, x in f.items() if i in g.input}
        if ctx:
            f['n_past'] = torch.tensor(a)
            if first:
                f['kv_cache'] = torch.zeros(*g.tensormap['kv_cache'].get_shape())
        o = gi.forward(f, **more)
        return [[fx(x) for x in row] for row in np.concatenate(list(o[g.output[0]].a), axis=-1)]     # the sequences side by side
    return read


def split(r):
    """A text read token by token or in runs, from one position on read again with other tokens, against the whole text at once."""
    sys.modules.setdefault('safetensors', types.SimpleNamespace(safe_open=Weights))
    while True:
        c, kw = llmdrv.describe(r, r.choice(DECODERS))
        if (c['hd'] or c['H'] // c['heads']) % 2 == 0:
            break
    kw.pop('final_logit_softcapping', 0)
    kw.pop('layer_types', 0)
    n = min(r.randint(2, 6), c['maxpos'])
    if n < 2:
        return None
    ctx = n + r.choice([0, 0, 1, 3])
    B = r.choice([1, 1, 2, 3])
    ids = [[r.randrange(c['V']) for _ in range(n)] for _ in range(B)]
    keep = r.randrange(n)           # the texts agree so far
    other = [x[:keep] + [r.randrange(c['V']) for _ in range(n - keep)] for x in ids]
    again = r.random() < .5
    w, cut, renamed = {}, [], r.choice([0, 0, 1, 2])

    def both():
        with tempfile.TemporaryDirectory() as folder:
            whole = reader(kw, n, B, 0, w, r, folder, renamed == 1)
            steps = reader(kw, n, B, ctx, w, r, folder, renamed == 2)
            got = []

            def go(text, a):
                k = r.choice([1, n, n])
                while a < n:
                    e = r.randint(a + 1, min(n, a + k))
                    more = dict(profile=True) if r.random() < .1 else {}
                    got[a:] = steps(text, a, e, not cut, **more)
                    cut.append([a, e])
                    a = e
            go(ids, 0)
            text = ids
            if again:
                text = other
                go(other, r.randint(0, keep))
            if r.random() < .5:
                whole(ids, 0, r.randint(1, n), True)
            return whole(text, 0, n, True), got
    with contextlib.redirect_stdout(io.StringIO()):
        ok, v, err = call(both)
    if not ok and 'Unsupported' in err:
        return 'unsupported'
    once, got = v if ok else ([], [])
    return dict(sig=f"split {c['arch']} {sorted(kw.items(), key=str)} x{B} {cut}", rec=dict(kind='split', ok=ok, err=err, cut=cut, once=once, got=got))


def run(chk):
    TH = vlib.THOROUGH
    chk.model_check('MC_LlmKernels', workers=6, timeout=800, expect_actions=('Call', 'Back'), consts=dict(Qs='{0, 1}') if TH else {})
    r = vlib.rng('c27')
    cases = []
    for what, n in ((attn, 400), (rope, 200), (norm, 300), (point, 400), (split, 60)):
        for _ in range(n * (8 if TH else 1)):
            x = what(r)
            if x is None:
                continue
            if x == 'unsupported':
                chk.actions['outside the stand-in'] = chk.actions.get('outside the stand-in', 0) + 1
                continue
            k = x['rec']['kind']
            chk.actions[k] = chk.actions.get(k, 0) + 1
            cases.append(x)
    chk.validate('T_LlmKernels', cases, shard=100)
    chk.assumptions += ['torch is absent: the kernels run on a numpy stand-in for the part of torch they call', 'operands for which the results are rational (LlmKernels)']
