"""Driving one graph object through a sequence of calls and recording what it says."""
import contextlib, csv, io, math, os, re, tempfile
import numpy as np
import opsdrv as od
import vlib
from vlib import call, dims

ot = vlib.import_repo()


def obs_tensor(n, t, want=True):
    h, v = od.values(t.numpy, 64) if want and t.numpy is not None else (False, [])
    return dict(n=n, s=dims(t.shape), d=od.dtype_name(t.dtype), has=h, v=v)


def fixed(x):
    """A number in ten-thousandths, 2000000000 if it is too large for that."""
    x = float(x)
    return -2000000000 if not math.isfinite(x) else math.floor(x * 10000) if abs(x) <= 110000 else 2000000000


def named(err, names):
    return [n for n in names if re.search(r'(?<![\w/.])' + re.escape(n) + r'(?![\w/.])', err)]


def pct(s):
    m = re.fullmatch(r'(-?\d+)\.(\d\d)%', s)
    return int(m.group(1)) * 100 + int(m.group(2)) if m else -2


def num(s):
    s = s.replace(',', '')
    return int(s) if re.fullmatch(r'-?\d+', s) and abs(int(s)) < 2 ** 31 else -1


def shp(s):
    return [num(x) for x in s.split('x')] if s and s != '_' else []


def cells_csv(text):
    return [row for row in csv.reader(io.StringIO(text))]


def cells_txt(text):
    lines = [x for x in text.split('\n') if x.strip()]
    k = next((j for j, x in enumerate(lines) if re.fullmatch(r'[- ]+', x)), None)
    if k is None:
        return []
    spans = [(m.start(), m.end()) for m in re.finditer(r'-+', lines[k])]
    rows = []
    for x in [lines[k - 1]] + lines[k + 1:]:
        # two blanks separate columns, cells have none of their own
        c = [x[a:b].strip() for a, b in spans]
        rows.append(c)
    return rows


def table(fmt, cells):
    head, body = cells[0], cells[1:]
    col = {h: k for k, h in enumerate(head)}
    mac = next(h for h in head if h.startswith('Forward_'))
    rows, total, dedup = [], [], []

    def g(r, h):
        return r[col[h]] if col[h] < len(r) else '?'
    for r in body:
        if g(r, 'Name') == 'Total' and g(r, 'Type') == '_':
            total = [num(g(r, mac)), num(g(r, 'Memory')), num(g(r, 'Params'))]
        elif g(r, 'Name') == 'Dedup_Params' and g(r, 'Type') == '_':
            dedup = [num(g(r, 'Params'))]
        else:
            rows.append(dict(n=g(r, 'Name'), op=g(r, 'Type'), macs=num(g(r, mac)), fp=pct(g(r, 'FPercent')), mem=num(g(r, 'Memory')), mp=pct(g(r, 'MPercent')),
                             params=num(g(r, 'Params')), pp=pct(g(r, 'PPercent')), ins=shp(g(r, 'InShape')), outs=shp(g(r, 'OutShape'))))
    return dict(fmt=fmt, rows=rows, total=total, dedup=dedup)


def tables(g, d, fmts=('csv',), metric='MACs', hide=None):
    """(tables, error) that print_node_map writes."""
    res = []
    for fmt in fmts:
        kw = dict(metric=metric)
        if hide is not None:
            kw['exclude_ops'] = hide
        if fmt == 'stdout':
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf), vlib.warnings.catch_warnings():
                    vlib.warnings.simplefilter('ignore')
                    g.print_node_map(**kw)
            except Exception as e:
                return res, f'{type(e).__name__}: {e}'[:300]
            text = buf.getvalue()
            cells = cells_txt(text)
        else:
            p = os.path.join(d, 'table.' + fmt)
            if os.path.exists(p):
                os.unlink(p)
            ok, _, err = call(g.print_node_map, p, **kw)
            if not ok:
                return res, err
            text = open(p).read() if os.path.exists(p) else ''
            cells = cells_csv(text) if fmt == 'csv' else cells_txt(text)
        if cells:
            res.append(table(fmt, cells))
    return res, ''


def parse(fmt, text):
    cells = cells_csv(text) if fmt == 'csv' else cells_txt(text)
    return [table(fmt, cells)] if cells else []


def api_table(g):
    """What profile() left on the graph and its nodes, as a table."""
    n = lambda x: int(x) if x == int(x) and abs(x) < 2 ** 31 else -1
    rows = [dict(n=k, op=g.nodemap[k].op_type, macs=n(g.nodemap[k].macs), mem=n(g.nodemap[k].memory), params=n(g.nodemap[k].params), fp=-1, mp=-1, pp=-1,
                 ins=dims(g.nodemap[k].inshape), outs=dims(g.nodemap[k].outshape)) for k in g.profiled_nodes]
    return dict(fmt='node', rows=rows, total=[n(g.macs[0]), n(g.memory), n(g.params)], dedup=[] if g.dedup_params == g.params else [n(g.dedup_params)])


class Driver:
    def __init__(self, mg, mp, declare='sym'):
        self.mg, self.rec = mg, mg.rec(declare)
        self.nodes = [n['n'] for n in self.rec['nodes']]
        self.inputs = [n['n'] for n in self.rec['inputs']]
        self.g = ot.Model(mp).graph
        self.dir = tempfile.mkdtemp(prefix='verif_session_')
        self.held = []          # arrays handed in or out, with what they held then

    def close(self):
        import shutil
        for st, arrays, copies in self.held:
            st['kept'] = all(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in zip(arrays, copies))
        shutil.rmtree(self.dir, ignore_errors=True)

    def step(self, name, ins=(), ok=True, err='', **k):
        st = dict(call=name, ins=[dict(n=n, **od.enc_in(x, x.dtype.kind in 'iub' or x.size <= k.get('limit', 4))) for n, x in ins], ok=ok, err=err,
                  nnamed=named(err, self.nodes), tnamed=named(err, self.inputs), obs=[], outs=[], unsupported='NotImplementedError' in err,
                  excl=[], hide=[], names=[], factor=1, tables=[], kept=True, anyorder=False)
        st.update({a: b for a, b in k.items() if a != 'limit'})
        self.rec['steps'].append(st)
        return ok

    def shape(self, feed):
        ok, _, err = call(self.g.shape_infer, feed)
        obs = [obs_tensor(n, t) for n, t in self.g.tensormap.items() if n] if ok else []
        return self.step('shape', (feed or {}).items(), ok, err, obs=obs)

    def value(self, feed):
        ok, res, err = call(self.g.value_infer, feed)
        outs = []
        for x in res if ok else []:
            x = None if x is None else np.asarray(x)
            h = x is not None and x.size <= 256 and x.dtype.kind in 'fiub'
            outs.append(dict(s=[-9999] if x is None else list(x.shape), d='' if x is None else od.dtype_name(x.dtype), has=h,
                             fx=[fixed(e) for e in x.reshape(-1)] if h else []))
        self.step('value', feed.items(), ok, err, outs=outs, limit=400)
        arrays = [np.asarray(x) for x in res or [] if x is not None] + list(feed.values())
        self.held.append((self.rec['steps'][-1], arrays, [a.copy() for a in arrays]))
        return ok

    def profile(self, excl=None, fmts=('csv',), metric='MACs'):
        ok, _, err = call(self.g.profile, excl) if excl is not None else call(self.g.profile)
        tb, e2 = tables(self.g, self.dir, fmts, metric) if ok else ([], '')
        if ok and tb:
            tb.append(api_table(self.g))
        return self.step('profile', (), ok and not e2, err or e2, excl=sorted(excl or []), tables=tb, factor=2 if metric == 'FLOPs' else 1)

    def dump(self, names):
        ok, _, err = call(self.g.add_dump_tensors, list(names))
        return self.step('dump', (), ok, err, names=list(names))

    def print(self, hide=None, fmts=('csv',), metric='MACs'):
        tb, e2 = tables(self.g, self.dir, fmts, metric, hide)
        return self.step('print', (), not e2, e2, hide=sorted(hide or []), tables=tb, factor=2 if metric == 'FLOPs' else 1)
