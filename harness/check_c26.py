"""C26: exported weights, edited interfaces and the command line."""
import contextlib, hashlib, io, os, runpy, shutil, struct, subprocess, sys, tempfile, warnings
import numpy as np
import onnx
from onnx import helper, TensorProto as TP
import check_c02 as c2
import modelgen as mg
import opsdrv as od
import vlib
from vlib import call

ot = vlib.import_repo()
POOL = ['a/b', 'a_b', 'a\\b', 'a_b_1', 'a_b/1', 'a/b\\c', 'a_b_c', 'a\\b/c', 'w', 'w.npy', 'x:0', 'W', '/layer/w:0', '_layer_w:0', 'é/ü', '..', '.hidden', 'a b',
        'a//b', 'a__b', 'a_b_', 'a/b_', 'layers.0.weight', 'w_1', 'w/1']


# ------------------------------------------------------------------------------ export
def special(r, d):
    """Floating-point values around everything that matters to halves."""
    c = r.choice([r.randrange(31744), r.choice([0, 1, 2, 1022, 1023, 1024, 1025, 2047, 31742, 31743])])
    x = struct.unpack('<e', struct.pack('<H', c))[0]
    y = struct.unpack('<e', struct.pack('<H', c + 1))[0] if c < 31743 else 65536.
    v = r.choice([x, (x + y) / 2, x + (y - x) / 2 * (1 + r.choice([-1, 1]) * 2. ** -10), x + (y - x) * r.random(), r.choice([1e-9, 1e30, 65519.9, 65520., 0.])])
    v *= r.choice([1, -1])
    if r.random() < .05:
        v = r.choice([float('inf'), float('-inf'), float('nan')])
    if d == 'f64' and r.random() < .3 and np.isfinite(v):
        v = float(np.nextafter(v, r.choice([-1e300, 1e300])))
    return v


class Named(c2.Loose):
    def __init__(self, r):
        super().__init__(r)
        self.pool = list(POOL)
        r.shuffle(self.pool)

    def name(self, p):
        return self.pool.pop() if p == 'w' and self.pool else super().name(p)


def chars(s):
    return list(s)


def stored(f):
    ok, a, err = call(np.load, f, allow_pickle=True)
    if not ok:
        return dict(d='unreadable', s=[-1], raw=[], w=[])
    if a.dtype.kind in 'OUS':
        return dict(d='str', s=list(a.shape), raw=[], w=[(x if isinstance(x, bytes) else str(x).encode()).hex() for x in a.reshape(-1)])
    d = 'raw' if a.dtype.kind == 'V' else 'b' if a.dtype.kind == 'b' else a.dtype.kind + str(8 * a.dtype.itemsize)
    return dict(d=d, s=list(a.shape), raw=list(np.ascontiguousarray(a).tobytes()), w=[])


def export(r, d, m, run_cli):
    src, out = os.path.join(d, 'a.onnx'), os.path.join(d, 'out')
    shutil.rmtree(out, ignore_errors=True)
    onnx.save_model(m, src)
    inits = [t.name for t in m.graph.initializer]
    extra = [o for n in m.graph.node if n.op_type == 'Constant' for o in n.output]
    all_, fp16, here = r.random() < .5, r.random() < .5, r.random() < .15
    asked = [] if all_ else [r.choice(inits + ['nosuch', 'in/put', 'a/b']) if inits else 'nosuch' for _ in range(r.randint(1, 4))]
    x = dict(inits=[dict(n=chars(t.name), t=c2.wire(t)) for t in m.graph.initializer], extra=[chars(n) for n in extra],
             asked=[chars(n) for n in dict.fromkeys(asked)], all=all_, fp16=fp16, files=[], told=[])
    rec = dict(kind='export', x=x)
    said = []

    def go():
        if here:
            os.makedirs(out)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            with chdir(out if here else d):
                ot.model_export_tensors_numpy(src if r.random() < .5 else onnx.load_model(src), None if all_ else asked, None if here else out, fp16)
            said.extend(str(w.message) for w in ws)
    ok, _, err = call(go)
    if ok:
        x['told'] = [chars(n) for n in dict.fromkeys(asked) if any(n in s for s in said)]
        for f in sorted(os.listdir(out)):
            x['files'].append(dict(n=chars(f[:-4] if f.endswith('.npy') else '?' + f), t=stored(os.path.join(out, f))))
    rec.update(ok=ok, err=err)
    return dict(sig=f"export {'all' if all_ else asked} fp16={fp16} of {[(t.name, c2.TYPES[t.data_type], list(t.dims)) for t in m.graph.initializer]}", rec=rec)


@contextlib.contextmanager
def chdir(p):
    old = os.getcwd()
    os.chdir(p)
    try:
        yield
    finally:
        os.chdir(old)


# --------------------------------------------------------------------------- interface
def shape_text(r, rank):
    return 'x'.join(r.choice(['1', '3', '224', '0', '007', 'N', 'width', 'seq_len', 'h2', '2h', 'batch size', 'a+b', str(r.randrange(1, 999))]) for _ in range(rank))


def rank_of(v):
    return len(v.type.tensor_type.shape.dim) if v.type.tensor_type.HasField('shape') else None


def edits_for(r, m):
    out = {}
    weights = {t.name for t in m.graph.initializer} & {o.name for o in m.graph.output}     # the declaration of a weight follows the weight
    for v in list(m.graph.input) + list(m.graph.output):
        if r.random() < .6 and v.name not in out and v.name not in weights:
            k = rank_of(v)
            k = r.randint(1, 3) if k is None else k
            if r.random() < .08:
                k += r.choice([-1, 1])
            if k > 0:
                out[v.name] = shape_text(r, k)
    if r.random() < .2:
        out['nosuch'] = shape_text(r, 2)
    if r.random() < .2 and m.graph.node:
        n = r.choice(m.graph.node)
        io = {v.name for v in list(m.graph.input) + list(m.graph.output)}
        x = next((o for o in n.output if o and o not in io), None)
        if x:
            out[x] = shape_text(r, 2)               # neither input nor output
    return out


EMPTY = dict(nodes=[], inputs=[], outputs=[], inits=[], infos=[], opset=[])


def edit(r, d, m):
    src, dst = os.path.join(d, 'a.onnx'), os.path.join(d, 'b.onnx')
    if os.path.exists(dst):
        os.unlink(dst)
    onnx.save_model(m, src)
    e = edits_for(r, m)
    given = dict(e)
    ok, _, err = call(ot.model_io_modify, src if r.random() < .5 else onnx.load_model(src), dst, given if r.random() < .9 or e else None)
    wrote = os.path.exists(dst)
    rec = dict(kind='edit', m=c2.proto(m), edits=[dict(n=n, v=chars(v)) for n, v in e.items()], f=c2.proto(onnx.load_model(dst)) if wrote else EMPTY, ok=ok, wrote=wrote, err=err)
    if given != e:
        rec.update(ok=False, err='the caller\'s dictionary is changed')
    decls = [(v.name, rank_of(v)) for v in list(m.graph.input) + list(m.graph.output)]
    return dict(sig=f'edit {e} of {decls}', rec=rec)


# ------------------------------------------------------------------------ command line
NP = dict(f32=np.float32, f64=np.float64, f16=np.float16, int32=np.int32, int64=np.int64, int8=np.int8, uint8=np.uint8, bool=np.bool_)


def digest(p):
    if os.path.isdir(p):
        return ' '.join(f'{f}:{digest(os.path.join(p, f))}' for f in sorted(os.listdir(p)))
    return hashlib.sha256(open(p, 'rb').read()).hexdigest()[:16] if os.path.exists(p) else 'absent'


def in_process(argv):
    old = sys.argv
    sys.argv = ['onnx_tool'] + argv
    try:
        with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            runpy.run_module('onnx_tool', run_name='__main__')
    finally:
        sys.argv = old


def captured(fn):
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn()
        return True, '', buf.getvalue()
    except (Exception, SystemExit) as e:
        return False, f'{type(e).__name__}: {e}'[:200], buf.getvalue()


def cli_case(r, d, k, job):
    """job: dict(mode, m, args for both sides)."""
    src = os.path.join(d, f's{k}.onnx')
    onnx.save_model(job['m'], src)
    pa, pb = (os.path.join(d, f'{k}{s}') for s in 'ab')
    outs = ([job['out']] if job.get('out') else []) + ([job['csv']] if job.get('csv') else [])

    def to(p, n):
        return p + '_' + n
    argv = ['-m', job['mode']] if job['mode'] != 'profile' or r.random() < .5 else []
    argv += ['-i', src]
    if job.get('out'):
        argv += ['-o', to(pa, job['out'])]
    if job.get('csv'):
        argv += ['-f', to(pa, job['csv'])]
    argv += job['argv']
    if job['sub']:
        p = subprocess.run([sys.executable, '-m', 'onnx_tool'] + argv, cwd=d, env=dict(os.environ, PYTHONPATH=vlib.REPO), capture_output=True, text=True, timeout=120)
        cok, err, said = p.returncode == 0, p.stderr.strip().splitlines()[-1:] and p.stderr.strip().splitlines()[-1][:200], p.stdout
    else:
        cok, err, said = captured(lambda: in_process(argv))
    fok, ferr, fsaid = captured(lambda: job['call'](src, to(pb, job['out']) if job.get('out') else None, to(pb, job['csv']) if job.get('csv') else None))
    files = [dict(n=n.split('.')[-1] + ' file', a=digest(to(pa, n)), b=digest(to(pb, n))) for n in outs]
    if job['mode'] == 'profile' and not job.get('csv'):
        files.append(dict(n='table', a=hashlib.sha256(said.encode()).hexdigest()[:16], b=hashlib.sha256(fsaid.encode()).hexdigest()[:16]))
    rec = dict(kind='cli', inputs=job.get('inputs', []), edits=job.get('edits', []), cok=cok, fok=fok, err=str(err or ferr), files=files)
    return dict(sig='python -m onnx_tool ' + ' '.join(a if not a.startswith(d) else os.path.basename(a) for a in argv), rec=rec)


def show(x, d):
    return str(int(x)) if d != 'f32' and d != 'f64' and d != 'f16' else repr(float(x))


def profile_job(r):
    g = mg.ModelGen(r)
    g.build(sinks=r.randint(0, 2), datas=r.randint(1, 4))
    m = g.model(r.choice(['sym', 'unknown', 'fixed']))
    if not g.nodes or not g.outputs:
        return None
    ren = {v.name: v.name + r.choice(['', '', ':0', ':0:1', '/x']) for v in m.graph.input}
    for v in m.graph.input:
        v.name = ren[v.name]
    for n in m.graph.node:
        for i, x in enumerate(n.input):
            if x in ren:
                n.input[i] = ren[x]
    for v in m.graph.output:
        v.name = ren.get(v.name, v.name)
    inits = {t.name for t in m.graph.initializer}
    feed = {ren.get(n, n): a for n, a in g.feed(r.randrange(g.na)).items() if n not in inits}
    args, inputs, dic = [], [], {}
    for n, a in feed.items():
        d = {v: k for k, v in NP.items()}.get(a.dtype.type)
        if d is None or a.ndim == 0:
            return None
        s = 'x'.join(map(str, a.shape))
        with_v = a.size and a.size <= 8 and r.random() < .5
        plain = not with_v and d == 'f32' and r.random() < .5
        if with_v:
            v = 'x'.join(show(x, d) for x in a.reshape(-1))
            arg, dic[n] = f'{n}:{d}:{s}:{v}', a
        else:
            v = ''
            arg, dic[n] = (f'{n}:{s}' if plain else f'{n}:{d}:{s}'), np.zeros(a.shape, a.dtype)
        args.append(arg)
        inputs.append(dict(arg=chars(arg), means=dict(n=chars(n), d=d, s=chars(s), v=chars(v))))
    ex = r.choice([None, None, None, ['Relu'], ['Add', 'MatMul'], ['Identity', 'Reshape', 'Mul']])
    argv = (['-d'] + args if args else []) + (['-e', ','.join(ex)] if ex else [])
    return dict(mode='profile', m=m, argv=argv, inputs=inputs, out=r.choice([None, 'o.onnx']), csv=r.choice([None, 'p.csv', 'p.txt']), sub=False,
                call=lambda src, out, csv: ot.model_profile(src, dic or None, exclude_ops=set(ex) if ex else None, save_profile=csv, save_model=out))


def switch_job(r):
    """A truth value given on the command line decides a shape."""
    d = r.choice(['bool', 'bool', 'int8', 'f16', 'uint8', 'int32', 'f64'])
    k = r.choice([1, 2])
    tp = onnx.helper.np_dtype_to_tensor_dtype(np.dtype(NP[d]))
    a = np.array([r.choice([0, 1]) for _ in range(k)], NP[d])
    nodes = [onnx.helper.make_node('Cast', ['c'], ['b'], to=TP.BOOL), onnx.helper.make_node('Where', ['b', 'w1', 'w2'], ['s']),
             onnx.helper.make_node('ConstantOfShape', ['s'], ['y'])]
    if d == 'bool':
        nodes = [onnx.helper.make_node('Where', ['c', 'w1', 'w2'], ['s'])] + nodes[2:]
    m = onnx.helper.make_model(onnx.helper.make_graph(nodes, 'g', [onnx.helper.make_tensor_value_info('c', tp, [r.choice([k, 'K'])])],
                                                      [onnx.helper.make_tensor_value_info('y', TP.FLOAT, None)],
                                                      [onnx.numpy_helper.from_array(np.array([2, 3]), 'w1'), onnx.numpy_helper.from_array(np.array([4, 5]), 'w2')]),
                               opset_imports=[onnx.helper.make_opsetid('', 13)])
    v = 'x'.join(show(x, d) for x in a)
    arg = f'c:{d}:{k}:{v}'
    return dict(mode='profile', m=m, argv=['-d', arg], inputs=[dict(arg=chars(arg), means=dict(n=chars('c'), d=d, s=chars(str(k)), v=chars(v)))], out='o.onnx', csv=None, sub=False,
                call=lambda src, out, csv: ot.model_profile(src, {'c': a}, save_model=out))


def export_job(r):
    m = Named(r).model()
    if not m.graph.initializer:
        return None
    names = r.choice([None, [r.choice([t.name for t in m.graph.initializer]), 'nosuch']])
    if names and any(n.startswith('-') for n in names):
        return None
    fp16 = r.random() < .5
    return dict(mode='export_tensors', m=m, argv=(['--names'] + names if names else []) + (['--fp16'] if fp16 else []), out='folder', sub=False,
                call=lambda src, out, csv: ot.model_export_tensors_numpy(src, names, out, fp16))


def fold_job(r):
    g = mg.ModelGen(r)
    g.build(sinks=r.randint(0, 2), datas=r.randint(1, 4))
    m = g.model('fixed')
    if not g.nodes or not g.outputs:
        return None
    return dict(mode='constant_folding', m=m, argv=[], out='o.onnx', sub=False, call=lambda src, out, csv: ot.model_constant_folding(src, out))


def edit_job(r):
    m = Named(r).model()
    e = {n: v for n, v in edits_for(r, m).items() if not n.startswith('-')}
    edits = [dict(arg=chars(f'{n}:{v}'), means=dict(n=chars(n), v=chars(v))) for n, v in e.items()]
    return dict(mode='io_modify', m=m, argv=['-d'] + [f'{n}:{v}' for n, v in e.items()] if e else [], edits=edits, out='o.onnx', sub=False,
                call=lambda src, out, csv: ot.model_io_modify(src, out, dict(e)))


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Files', workers=6, timeout=800, expect_actions=('Export', 'Modify'), consts=dict(Stride=7 if T else 61, MaxSteps=3 if T else 2))
    r = vlib.rng('c26')
    cases = []
    with tempfile.TemporaryDirectory(prefix='verif_c26_') as d:
        for k in range(8000 if T else 900):
            m = Named(r).model()
            for t in m.graph.initializer:
                if t.data_type in (TP.FLOAT, TP.DOUBLE):
                    n = int(np.prod(t.dims))
                    dt = 'f4' if t.data_type == TP.FLOAT else 'f8'
                    with np.errstate(over='ignore'):
                        t.CopyFrom(onnx.numpy_helper.from_array(np.array([special(r, 'f32' if dt == 'f4' else 'f64') for _ in range(n)], dt).reshape(list(t.dims)), t.name))
            cases.append(export(r, d, m, False))
        for k in range(8000 if T else 900):
            cases.append(edit(r, d, Named(r).model()))
        for k in range(4000 if T else 350):
            job = r.choice([profile_job, profile_job, switch_job, export_job, fold_job, edit_job])(r)
            if job:
                job['sub'] = len(cases) % 15 == 0
                cases.append(cli_case(r, d, k, job))
                chk.actions['cli ' + job['mode']] = chk.actions.get('cli ' + job['mode'], 0) + 1
        chk.actions['export'] = chk.actions['edit'] = 8000 if T else 900
    chk.validate('T_Files', cases, shard=80)
