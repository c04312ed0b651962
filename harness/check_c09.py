"""C09: totals and tables account for every counted node exactly once, in every format and through every entrance."""
import contextlib, io, os, tempfile
import numpy as np
import onnx
import modelgen as mg
import opsdrv as od
import sessiondrv as sd
import vlib
from vlib import call

ot = vlib.import_repo()
FMTS = ('csv', 'txt', 'stdout')


class Weighted(mg.ModelGen):
    """Models with shared weights of several element types and awkward node names."""
    style = 'plain'

    def weights(self):
        r = self.r
        x = self.pick(self.datas())
        k = r.random()
        same = [n for n, a in self.inits if a.dtype == np.float32 and a.size > 1]
        if k < .3:
            s = self.val[x][0].shape
            w = r.choice(same) if same and r.random() < .7 else self.init(self.g.arr([s[-1]], 'f32'))
            return self.emit(r.choice(['Add', 'Mul', 'Max']), r.choice([[x, w], [w, x], [w, w]]))
        if k < .5 and self.rank(x) >= 2:
            n = self.val[x][0].shape[-1]
            if any(v.shape[-1] != n for v in self.val[x]):
                return None
            fit = [w for w in same if self.val[w][0].ndim == 2 and self.val[w][0].shape[0] == n]
            w = r.choice(fit) if fit and r.random() < .7 else self.init(self.g.arr([n, r.choice([n, n, 5])], 'f32'))
            return self.emit('MatMul', [x, w])
        if k < .65:
            w = self.init(self.g.arr([r.randint(2, 5), r.randint(1, 4)], 'f32'))
            ix = self.init(np.array([r.randint(0, 1) for _ in range(r.randint(1, 6))], np.int64)) if r.random() < .3 else self.emit('Shape', [x])
            y = self.emit('Gather', [w, ix]) if ix in self.const else self.emit('Mod', [ix, self.k([2])])
            return y if ix in self.const else self.emit('Gather', [w, y]) if y else None
        if k < .75:
            w = self.init(self.g.arr([r.randint(2, 4)], r.choice(['i8', 'u8'])))
            s = self.init(np.array(.5, np.float32))
            z = self.init(np.array(0, self.val[w][0].dtype))
            return self.emit('DequantizeLinear', r.choice([[w, s], [w, s, z]]))
        if k < .85:
            return self.emit('Cast', [x], {'to': r.choice([10, 11, 6, 7])})
        return self.data()

    def build(self, **kw):
        super().build(**kw)
        for _ in range(self.r.randint(1, 4)):
            self.weights()
        return self

    def nn(self, k, op):
        return {'plain': f'n{k}_{op}_', 'comma': f'n{k},{op}', 'quote': f'n"{k}", {op}"', 'num': f'{k}', 'frac': f'0{k}.50', 'exp': f'{k}e3', 'slash': f'/a/{k}:{op}',
                'pct': f'{k}%', 'apo': f"{k}'s {op}", 'total': 'Total' if k == 0 else f'n{k}', 'long': f'n{k}' * 30}[self.style]


STYLES = ['plain', 'plain', 'comma', 'quote', 'num', 'frac', 'exp', 'slash', 'pct', 'apo', 'total', 'long']


def model(r):
    while True:
        m = Weighted(r)
        m.style = r.choice(STYLES)
        m.listed = r.random() < .3
        m.build(sinks=r.randint(0, 2), datas=r.randint(1, 4))
        if m.nodes:
            return m


def types(m):
    return sorted({n[0] for n in m.nodes})


def some(r, xs):
    return set(r.sample(xs, r.randint(1, min(3, len(xs)))))


def session(m, r, chk):
    d = sd.Driver(m, m.model('sym'), 'sym')
    calls = ['shape', 'profile'] + [r.choice(['shape', 'profile', 'profileX', 'profileX', 'print', 'printX']) for _ in range(r.randint(1, 3))]
    for c in calls:
        chk.actions[c] = chk.actions.get(c, 0) + 1
        fmts = r.sample(FMTS, r.randint(1, 2))
        metric = r.choice(['MACs', 'FLOPs'])
        if c == 'shape':
            d.shape(m.feed(r.randrange(m.na)))
        elif c.startswith('profile'):
            d.profile(some(r, types(m)) if c == 'profileX' else None, fmts, metric)
        else:
            d.print(some(r, types(m)) if c == 'printX' else None, fmts, metric)
    d.close()
    return dict(sig='+'.join(calls) + f' {m.style} ' + m.sig(), rec=d.rec)


class Api(sd.Driver):
    """One call of model_profile, as the shape inference and profile it stands for."""

    def __init__(self, m):
        self.mg, self.rec, self.held, self.dir = m, m.rec('sym'), [], ''
        self.nodes, self.inputs = [n['n'] for n in self.rec['nodes']], []


def profile_api(m, mp, r, d):
    kw, feed = {}, m.feed(r.randrange(m.na))
    hidden = set(ot.NoMacsOps)
    if r.random() < .6:
        hidden = some(r, types(m)) if r.random() < .7 else r.choice([None, set()])
        kw['hidden_ops'] = hidden if hidden is None else r.choice([set, tuple, list])(hidden)
    excl = set(hidden or ())
    if r.random() < .5:
        x = some(r, types(m) + ['Conv', 'Relu'])
        kw['exclude_ops'] = r.choice([set, list])(x)
        excl |= x
    fmt = r.choice(FMTS)
    f = os.path.join(d, 'p.' + fmt)
    if fmt != 'stdout':
        kw['save_profile'] = f
    if r.random() < .3:
        kw['save_model'] = os.path.join(d, 'out.onnx')
    src = mp
    if r.random() < .5:
        src = os.path.join(d, 'in.onnx')
        onnx.save_model(mp, src)
    buf = io.StringIO()
    ok, err = True, ''
    try:
        with contextlib.redirect_stdout(buf), vlib.warnings.catch_warnings():
            vlib.warnings.simplefilter('ignore')
            ot.model_profile(src, feed, **kw)
    except Exception as e:
        ok, err = False, f'{type(e).__name__}: {e}'[:300]
    text = buf.getvalue() if fmt == 'stdout' else open(f).read() if os.path.exists(f) else ''
    if os.path.exists(f):
        os.unlink(f)
    a = Api(m)
    a.step('shape', feed.items(), True, '')
    a.step('profile', (), ok, err, excl=sorted(excl), tables=sd.parse(fmt, text), anyorder=True)
    return dict(sig=f'model_profile({ {k: v for k, v in kw.items() if k.endswith("ops")} }) {fmt} {m.style} ' + m.sig(), rec=a.rec)


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Profile', workers=6, expect_actions=('Load', 'Profile', 'Show'))
    r = vlib.rng('c09')
    cases = [session(model(r), r, chk) for _ in range(2500 if T else 600)]
    with tempfile.TemporaryDirectory(prefix='verif_c09_') as d:
        for _ in range(300 if T else 80):
            m = model(r)
            mp = m.model('sym')
            for _ in range(3):              # one call must not influence the next
                cases.append(profile_api(m, mp, r, d))
                chk.actions['model_profile'] = chk.actions.get('model_profile', 0) + 1
    chk.validate('T_Session', cases, shard=20)
