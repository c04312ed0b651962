"""C25: inference in the planned pool."""
import os, tempfile, warnings
import numpy as np
import onnx
from onnx.reference import ReferenceEvaluator
import vlib
from vlib import call
import infdrv as d
import opsdrv as od
from infdrv import torch, fixed

F4 = np.float32


def shaky(op, xs, a):
    """Results which jump where operands are equal but for rounding say nothing there."""
    if op not in ('TopK', 'Mod', 'Greater', 'Less', 'Equal', 'Cast') or any(x is None for x in xs[:2]):
        return False
    x = np.asarray(xs[0])
    if op == 'TopK':
        near = np.abs(np.diff(np.sort(x, axis=a.get('axis', -1)), axis=a.get('axis', -1))) < 1e-3
        return bool(near.any() and np.any(x != np.round(x)))
    if op == 'Cast':
        near = np.abs(x - np.round(x)) < 1e-3 if a.get('to') in (2, 3, 5, 6, 7, 12, 13) and x.dtype.kind == 'f' else np.zeros(1, bool)
        return bool(np.any(near & (x != np.round(x))))
    y = np.asarray(xs[1])
    if x.dtype.kind != 'f' or y.dtype.kind != 'f':
        return False
    x, y = np.broadcast_arrays(x, y)
    exact = (x == np.round(x)) & (y == np.round(y))
    near = np.abs(x - y) < 1e-3 if op != 'Mod' else np.abs(x / y - np.round(x / y)) * np.abs(y) < 1e-3
    return bool(np.any(near & ~exact))


def one_run(chk, r, path):
    m, ins, outs, desc, var = d.build(r)
    mp = m.model(ins, outs)
    if not outs:
        return None
    wide = m.model(ins, outs, ref=True)                  # with every tensor as an output, to know all shapes
    names = [o.name for o in wide.graph.output]
    const = {t.name: onnx.numpy_helper.to_array(t) for t in mp.graph.initializer}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ev = ReferenceEvaluator(wide, new_ops=[d.AveragePool])

        def shapes(asg):
            res = ev.run(None, d.feed(m, r, desc, asg))
            at = [dict(n=n, s=list(np.shape(x))) for n, x in zip(names, res)]
            return at + [dict(n=n, s=[asg[v] if isinstance(v, str) else v for v in e]) for n, e in desc.items()]
        try:
            lo = {v: a for v, (a, _) in var.items()}
            lines = [dict(v=v, at=[shapes({**lo, v: x}) for x in range(a, b + 1)]) for v, (a, b) in var.items()]
            shapes({v: b for v, (_, b) in var.items()})
        except Exception:
            return None
        if any(min(t['s'] + [1]) < 1 or int(np.prod(t['s'])) > 600 for l in lines for a in l['at'] for t in a):
            return None
        steps = []
        asg = None
        for _ in range(r.choice([2, 3, 4])):
            if asg is None or r.random() < .75:
                asg = {v: r.choice([a, b, r.randint(a, b)]) for v, (a, b) in var.items()}
            fd = d.feed(m, r, desc, asg)
            try:
                res = dict(zip(names, ev.run(None, fd)))
            except Exception:
                return None
            if any(not np.all(np.isfinite(x)) for x in res.values()) or any(np.abs(x).max() > 80000 for x in res.values() if x.size and x.dtype.kind in 'fi'):
                return None
            if any(shaky(o, [{**res, **fd, **const}.get(n) for n in i], a) for o, i, _, a in m.nodes):
                return None
            steps.append((asg, fd, [(o, np.asarray(res[o])) for o in outs]))
    onnx.save_model(mp, path)
    given = dict(desc)
    rng = {v: r.choice([tuple, list])(x) for v, x in var.items()}
    ok, gi, err = d.quiet(lambda: d.inf.GraphInfer(path, given, rng))
    rec = dict(kind='run', inits=[d.enc_t(t.name, onnx.numpy_helper.to_array(t)) for t in mp.graph.initializer], nodes=m.spec(), vars=list(var), lines=lines,
               lows=[a for a, _ in var.values()], ok=ok, err=err, blocks=[], size=0, steps=[])
    if 'Unsupported' in err:
        return 'unsupported'
    if ok:
        if gi.kv_pool is None and hasattr(gi, 'pool'):
            rec['blocks'] = [dict(n=n, off=int(b[0]), len=int(b[1])) for n, b in gi.pool.items()]
            rec['size'] = int(gi.pool.compress_size)
        with d.Watch() as w:
            for asg, fd, want in steps:
                t = r.random()
                if t < .1 and len(fd) > 1:         # a call that fails half way does not disturb the next
                    broken = {n: x if k == 0 else x.reshape(-1)[:1] for k, (n, x) in enumerate(fd.items())}
                    d.quiet(lambda: gi.forward({n: torch.from_numpy(x.copy()) for n, x in broken.items()}))
                elif t < .25:                      # whichever operator it is that fails
                    halfway(gi, {n: torch.from_numpy(x.copy()) for n, x in fd.items()}, r.randrange(len(gi.node_names) or 1))
                w.ev = []
                order = list(fd)
                if r.random() < .4:
                    r.shuffle(order)
                kw = dict(debug=True) if r.random() < .1 else dict(profile=True) if r.random() < .1 else {}
                ok, res, err = d.quiet(lambda: gi.forward({n: torch.from_numpy(fd[n].copy()) for n in order}, **kw))
                if 'Unsupported' in err:
                    return 'unsupported'
                ev_ = d.pieces(gi, w, fd) if ok else []
                if ok:
                    last = []
                    for o, _ in want:
                        at = d.span(gi.pool.pool, res[o]) if o in res and o in dict(gi.pool.items()) else None
                        if at and ev_:
                            last.append(dict(n=o, lo=at[0], hi=at[1]))
                    if ev_:
                        ev_.append(dict(r=last, w=[]))
                rec['steps'].append(dict(given=[d.enc_t(n, x) for n, x in fd.items()], vals=[asg[v] for v in var], ok=ok, err=err, fails=False,
                                         outs=[dict(n=o, s=list(res[o].a.shape), fx=[fixed(e) for e in res[o].a.reshape(-1)]) for o, _ in want if o in res] if ok else [],
                                         want=[dict(n=o, s=list(x.shape), fx=[fixed(e) for e in x.reshape(-1)]) for o, x in want], ev=ev_))
                if not ok:
                    break
    sig = 'run ' + ' '.join(f"{o}({','.join(i)})->{','.join(t)}" + ''.join(f' {k}={v}' for k, v in a.items()) for o, i, t, a in m.nodes) \
        + ' ' + str({n.name: onnx.numpy_helper.to_array(n).tolist() for n in mp.graph.initializer if onnx.numpy_helper.to_array(n).size < 7}) + f' {desc} {var}'
    return dict(sig=sig, rec=rec)


def halfway(gi, ins, k):
    reg = d.kernels.KernelRegistry
    saved, get, left = reg.__dict__['get'], reg.get, [k]

    def failing(op):
        left[0] -= 1
        if left[0] < 0:
            raise MemoryError('out of memory')
        return get(op)
    reg.get = failing
    try:
        d.quiet(lambda: gi.forward(ins))
    finally:
        reg.get = saved


def one_pool(r):
    dt = r.choice([torch.float32, torch.float32, torch.float16, torch.int32, torch.uint8])
    w = dt.itemsize
    blocks, at = {}, 0
    for k in range(r.randint(1, 4)):
        n = r.randint(1, 6) * w
        off = at if r.random() < .7 else w * r.randint(0, max(0, at // w))
        blocks[f't{k}'] = [off, n]
        at = max(at, off + n)
    size = at + w * r.randint(0, 2)
    if r.random() < .15:
        b = blocks[r.choice(list(blocks))]
        u = r.random()
        if u < .4:
            size = max(0, b[0] + b[1] - w)
        elif u < .7:
            b[r.randrange(2)] = -w
        else:
            b[1] = 0
    ok, p, err = call(lambda: d.memory_pool.MemoryPool({k: list(v) for k, v in blocks.items()}, size, dtype=dt))
    rec = dict(kind='pool', size=size, width=w, blocks=[dict(n=n, off=b[0], len=b[1]) for n, b in blocks.items()], ok=ok, err=err, ops=[], first=[])
    sig = f'pool {blocks} {size} {dt}'
    if ok:
        raw = lambda: [int(x) for x in p.pool.a]
        rec['first'] = raw()
        for _ in range(r.randint(1, 8)):
            op = r.choice(['get', 'get', 'batch', 'fill', 'fill', 'zero', 'item'])
            n = r.choice(list(blocks) + ['nope'] * (r.random() < .3))
            cap = blocks[n][1] // w if n in blocks else 1
            hs = r.random() < .7 and op in ('get', 'batch')
            shp = []
            if hs or op == 'batch':
                shp = r.choice([[cap], [1, cap], [cap, 1], [max(1, cap - 1)], [cap + 1], [2, max(1, cap // 2)], [2, cap], []])
                if op == 'batch' and not shp:
                    shp = [1]
                hs = True
            o = dict(op=op, n=n, shape=shp, hasshape=hs, data=[], ok=True, err='', s=[], all=[])
            vals = np.array([r.randint(0, 9) for _ in range(20)]).astype(dt.np)
            if op == 'fill':
                x = vals[:r.choice([cap, cap + 2, 20])]
                if len(x) < cap:
                    x = vals[:cap]
                arg = x.reshape(r.choice([[-1], [1, -1]]))
                if r.random() < .3:
                    arg = arg.astype(np.float64)
                if r.random() < .5:
                    arg = torch.from_numpy(arg)
                o['ok'], _, o['err'] = call(lambda: p.fill_tensor(n, arg))
                o['data'] = [int(b) for b in x.tobytes()]
            elif op == 'zero':
                o['n'] = list(blocks)[0]
                o['ok'], _, o['err'] = call(p.zero_)
            else:
                f = {'get': lambda: p.get(n, shape=shp) if hs else p.get(n), 'item': lambda: p[n], 'batch': lambda: p.get_batch(n, shp[0], shp[1:] if len(shp) > 1 else None)}[op]
                o['op'] = 'get'
                o['ok'], t, o['err'] = call(f)
                if o['ok']:
                    o['s'] = list(t.a.shape)
                    v = vals[:t.a.size]
                    t.copy_(torch.from_numpy(v.reshape(t.a.shape)))
                    o['data'] = [int(b) for b in v.tobytes()]
            if 'Unsupported' in o['err']:
                break
            o['all'] = raw()
            rec['ops'].append(o)
            sig += f" {op}:{n}:{shp if hs else ''}"
    return dict(sig=sig, rec=rec)


def one_kv(r):
    kv = r.choice([1, 2])
    heads, dim, layers = kv * r.choice([1, 2]), r.choice([2, 4]), r.choice([1, 2])
    layer = r.randrange(layers)
    n = r.randint(1, 6)
    ctx = n + r.randint(0, 2)
    uniform = r.random() < .5
    q = np.array([0 if uniform else r.randint(-2, 2) for _ in range(n * heads * dim)], F4).reshape(1, n, heads * dim)
    k, v = (np.array([r.randint(-3, 3) for _ in range(n * kv * dim)], F4).reshape(1, n, kv * dim) for _ in 'kv')
    wide = kv * dim + r.choice([0, 0, 2])
    cache = np.array([r.randint(-9, 9) for _ in range(2 * layers * ctx * wide)], F4).reshape(1, 2 * layers, ctx, wide)
    a = dict(head_num=heads, head_size=dim, kv_head_num=kv, layer_i=layer)
    K = d.kernels.KernelRegistry.get('SDPA')
    T = lambda x: torch.from_numpy(x.copy())
    chunks, left = [], n
    while left:
        c = r.randint(1, left)
        chunks.append(c)
        left -= c
    past = lambda p: r.choice([torch.tensor(p), torch.tensor([p]), torch.tensor([[p]]), torch.tensor(float(p))])

    def four(x, h):                       # [B, S, D] as [B, N, S, head]
        return T(np.ascontiguousarray(x.reshape(1, x.shape[1], h, dim).transpose(0, 2, 1, 3)))

    def go():
        once = T(np.full(q.shape, np.nan, F4))
        K.run([T(q), T(k), T(v)], [once], a)
        c = T(cache)
        got, p = [], 0
        for s in chunks:
            o = T(np.full((1, s, heads * dim), np.nan, F4))
            K.run([T(x[:, p:p + s]) for x in (q, k, v)] + [past(p), c], [o], a)
            got.append(o.a)
            p += s
        return once.a, np.concatenate(got, 1), c.a
    ok, res, err = call(go)
    if 'Unsupported' in err:
        return 'unsupported'
    fl = lambda x: [fixed(e) for e in x.reshape(-1)]
    it = lambda x: [int(e) for e in x.reshape(-1)]
    rec = dict(kind='kv', ok=ok, err=err, heads=heads, kv=kv, dim=dim, layer=layer, ctx=ctx, kvwidth=wide, uniform=uniform, chunks=chunks, k=it(k), v=it(v), cache0=it(cache),
               once=fl(res[0]) if ok else [], got=fl(res[1]) if ok else [], cache=it(res[2]) if ok else [])
    return dict(sig=f'kv {heads} {kv} {dim} {layer}/{layers} {n} {chunks} {uniform} {it(q)}', rec=rec)


def one_kernel(inst):
    """One operator's kernel on float32 operands, into buffers of the inferred shapes."""
    if inst.refuse or inst.novalue or not inst.ins or inst.ins[0] is None or inst.ins[0].dtype != F4 or any(x is not None and not x.size for x in inst.ins):
        return None
    m, feed, outs = inst.model(vlib.rng('c25k'))

    def prepare():
        g = d.ot.Model(m).graph
        g.shape_infer(feed)
        return g.nodemap['node_under_test'].attr, [(list(g.tensormap[o].get_shape()), np.dtype(g.tensormap[o].dtype)) for o in outs]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ok, v, _ = d.quiet(prepare)
        if not ok:
            return None                                  # C04
        T = lambda x: torch.from_numpy(np.array(x, dtype=F4, copy=True))
        xs = [None if x is None else T(x) for x in inst.ins]
        ys = [T(np.full(s, np.nan)) for s, _ in v[1]]
        ok, _, err = d.quiet(lambda: d.kernels.KernelRegistry.get(inst.op).run(xs, ys, v[0]))
    if not ok and 'Unsupported' in err:
        return 'unsupported'
    if not ok and (inst.op in ('Conv', 'MaxPool', 'AveragePool', 'GlobalAveragePool') and inst.ins[0].ndim != 4 or
                   inst.op == 'Pad' and inst.a.get('mode', 'constant') != 'constant' or inst.op == 'Shape'):
        return 'refused'                                 # the engine's kernels are for images, and shapes are no data
    rec = inst.rec('value')
    rec['ok'], rec['err'] = ok, err
    for y, (_, t) in zip(ys if ok else [], v[1]):
        a = y.a.astype(t) if t.kind == 'f' or np.isfinite(y.a).all() else y.a
        h, e = od.values(a)
        rec['outs'].append(dict(s=od.dims(a.shape), d=od.dtype_name(a.dtype), has=h, v=e))
    if inst.op == 'MaxPool' and inst.n == 2 and not getattr(inst, 'both', False):
        rec['n'], rec['outs'] = 1, rec['outs'][:1]
    return dict(sig='kernel ' + inst.sig(), rec=rec)


def kernels(chk, r, n):
    A = chk.actions
    cases = []
    ops = [o for o in od.OPS if d.kernels.KernelRegistry.get(o) is not None]
    both = od.Inst('MaxPool', [np.arange(16, dtype=F4).reshape(1, 1, 4, 4)], dict(kernel_shape=[2, 2], strides=[2, 2]), n=2)
    both.both = True
    for i in [both] + list(od.instances(r, n, ops)):
        x = one_kernel(i)
        if x is None:
            continue
        what = {'unsupported': 'outside the stand-in', 'refused': 'refused'}.get(x, 'kernel') if isinstance(x, str) else 'kernel'
        A[what] = A.get(what, 0) + 1
        if not isinstance(x, str):
            cases.append(x)
    chk.validate('T_Ops', cases, shard=150)


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Infer', workers=8, timeout=800, consts=dict(Wide='TRUE', MaxNodes=3) if T else {})
    r = vlib.rng('c25')
    cases = []

    def note(x, what):
        if x is None:
            return
        if x == 'unsupported':
            chk.actions['outside the stand-in'] = chk.actions.get('outside the stand-in', 0) + 1
            return
        chk.actions[what] = chk.actions.get(what, 0) + 1
        cases.append(x)
    kernels(chk, vlib.rng('c25k'), 600 if T else 70)
    with tempfile.TemporaryDirectory() as tmp:
        want = 2500 if T else 420
        tries = 0
        while chk.actions.get('run', 0) < want and tries < 8 * want:
            tries += 1
            note(one_run(chk, r, os.path.join(tmp, 'm.onnx')), 'run')
    for _ in range(800 if T else 150):
        note(one_pool(r), 'pool')
    for _ in range(400 if T else 100):
        note(one_kv(r), 'kv')
    chk.validate('T_Infer', cases, shard=40)
    chk.assumptions += ['torch is absent: the package runs on a numpy stand-in for the part of torch it calls (views share memory, results of another shape are refused)',
                        'dimensions in the shape engine\'s class (C12)', 'float32 pool']
