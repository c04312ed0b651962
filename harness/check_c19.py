"""C19: fixed If branches and TopK sizes."""
import hashlib, os, tempfile
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
from onnx.reference import ReferenceEvaluator
import vlib
from vlib import call

ot = vlib.import_repo()
from onnx_tool.tensor import STATIC_TENSOR

LOCAL = ['t', 'r', 's', 'y', 'out', 'constant_fixed_topk_k', 'y_1', 't_1']


class Scope:
    def __init__(self, up=None):
        self.up = up
        self.vec = list(up.vec) if up else []       # (name, length)
        self.cond = list(up.cond) if up else []
        self.ks = list(up.ks) if up else []         # (name, value)
        self.names = set(up.names) if up else set() # names visible here
        self.nodes, self.inits = [], []


class Net:
    """A random model with nested Ifs and TopKs; every float tensor is a vector."""
    def __init__(self, r):
        self.r = r
        self.fk = r.choice([0, 0, 1, 2, 3])
        self.branch = r.choice(['then', 'else']) if self.fk == 0 or r.random() < .6 else None
        self.old = r.random() < .15                 # TopK still has its size as an attribute
        self.nodes_left = r.randint(3, 12)
        self.count = 0
        self.loop = False
        self.top = Scope()
        self.inputs, self.feeds = [], {}
        self.topks = 0
        self.ever = set()

    # ------------------------------------------------------------------ names
    def name(self, s, inner, everywhere=False):
        r = self.r
        if r.random() < (.6 if inner else .12):
            n = r.choice(LOCAL)
            # an initializer is visible before its place in the model as well
            if n not in s.names and not (everywhere and n in self.ever):
                s.names.add(n)
                self.ever.add(n)
                return n
        while True:
            self.count += 1
            n = f'v{self.count}'
            if n not in s.names:
                s.names.add(n)
                return n

    def node(self, s, op, ins, outs, inner, **a):
        r = self.r
        self.count += 1
        nm = '' if r.random() < .2 else r.choice(['n', 'Add_1', 'k']) if inner and r.random() < .3 else f'N{self.count}'
        if inner and nm == 'n' and r.random() < .3:
            nm = 'n_1'
        s.nodes.append(helper.make_node(op, ins, outs, name=nm, **a))
        return outs

    def init(self, s, arr, inner):
        n = self.name(s, inner, True)
        s.inits.append(numpy_helper.from_array(arr, n))
        return n

    def graph_input(self, typ, arr):
        n = f'in{len(self.inputs)}'
        # an outer input is visible everywhere
        self.inputs.append(helper.make_tensor_value_info(n, typ, arr.shape))
        self.feeds[n] = arr
        return n

    # ------------------------------------------------------------------ pieces
    def condition(self, s, inner):
        r = self.r
        x = r.random()
        if s.cond and x < .3:
            return r.choice(s.cond)
        if x < .4:
            n = self.init(s, np.array([r.random() < .5]), inner)
        elif x < .5 and s.cond:
            n = self.name(s, inner)
            self.node(s, 'Not', [r.choice(s.cond)], [n], inner)
        elif x < .6 and len(s.cond) > 1:
            n = self.name(s, inner)
            self.node(s, 'And', [r.choice(s.cond), r.choice(s.cond)], [n], inner)
        else:
            v = r.choice(s.vec)[0]
            if r.random() < .4:
                t = self.name(s, inner)
                self.node(s, 'Neg', [v], [t], inner)
                if r.random() < .4:
                    s.vec.append((t, dict(s.vec)[v]))
                v = t
            m, n = self.name(s, inner), self.name(s, inner)
            self.node(s, 'ReduceSum', [v], [m], inner, keepdims=1)
            self.node(s, 'Greater', [m, self.init(s, np.array([r.uniform(-2, 2)], np.float32), inner)], [n], inner)
        s.cond.append(n)
        return n

    def size(self, s, L, inner):
        """a tensor holding a size of at most L"""
        r = self.r
        fit = [(n, v) for n, v in s.ks if v <= L]
        x = r.random()
        if fit and x < .3:
            return r.choice(fit)
        v = r.randint(1, min(L, 4))
        arr = np.array([v], np.int64)
        if x < .5:
            n = self.init(s, arr, inner)
        elif x < .6 and not inner:
            n = self.graph_input(TensorProto.INT64, arr)
            s.names.add(n)
        elif x < .8:
            n = self.name(s, inner)
            self.node(s, 'Constant', [], [n], inner, value=numpy_helper.from_array(arr))
        else:
            a, n = self.name(s, inner), self.name(s, inner)
            src = [q for q in s.vec if q[1] >= v]
            self.node(s, 'Shape', [r.choice(src)[0]], [a], inner)
            self.node(s, 'Min', [self.init(s, arr, inner), a], [n], inner)
        s.ks.append((n, v))
        return n, v

    def topk(self, s, inner):
        r = self.r
        fit = [q for q in s.vec if q[1] >= max(self.fk, 1)]
        if not fit:
            return
        x, L = r.choice(fit)
        self.topks += 1
        a, b = self.name(s, inner), self.name(s, inner)
        if self.old:
            k = r.randint(1, min(L, 4))
            self.node(s, 'TopK', [x], [a, b], inner, k=k, axis=0)
        else:
            kn, k = self.size(s, L, inner)
            self.node(s, 'TopK', [x, kn], [a, b], inner, axis=0)
            if r.random() < .2:      # the old size is used elsewhere as well
                c = self.name(s, inner)
                self.node(s, 'Cast', [kn], [c], inner, to=TensorProto.FLOAT)
                s.vec.append((c, 1))
        k = self.fk or k
        s.vec.append((a, k))

    def loop_node(self, s, inner):
        """a loop stays as it is, with what it takes from outside"""
        r = self.r
        self.loop = True
        x, L = r.choice(s.vec)
        b = Scope(s)
        i, c, v = 'it', 'keep', r.choice(['t', 'acc'])
        if {i, c, v} & s.names:
            return
        b.names |= {i, c, v}
        self.ever |= {i, c, v}
        w, q = self.name(b, True), self.name(b, True)
        co = self.name(b, True)
        other = [n for n, l in s.vec if l == L]
        body = helper.make_graph([helper.make_node('Add', [v, r.choice(other)], [w]), helper.make_node('Neg', [w], [q]), helper.make_node('Identity', [c], [co])], 'body',
                                 [helper.make_tensor_value_info(i, TensorProto.INT64, []), helper.make_tensor_value_info(c, TensorProto.BOOL, []), helper.make_tensor_value_info(v, TensorProto.FLOAT, [L])],
                                 [helper.make_tensor_value_info(co, TensorProto.BOOL, []), helper.make_tensor_value_info(q, TensorProto.FLOAT, [L])])
        n = self.name(s, inner)
        self.node(s, 'Loop', [self.init(s, np.array(2, np.int64), inner), '', x], [n], inner, body=body)
        s.vec.append((n, L))

    def branch_graph(self, s, lens, depth):
        r = self.r
        b = Scope(s)
        for _ in range(r.randint(0, 3)):
            self.step(b, depth)
        outs = []
        for L in lens:
            local = [n for n, l in b.vec if l == L and (n, l) not in s.vec and n not in outs]
            outer = [n for n, l in s.vec if l == L]
            x = r.random()
            if local and x < .55:
                outs.append(r.choice(local))
            elif outs and x < .65 and dict(b.vec)[outs[-1]] == L:
                outs.append(outs[-1])                        # one tensor as two outputs
            elif x < .75:
                n = self.init(b, np.array([r.randint(-9, 9) for _ in range(L)], np.float32), True)
                b.vec.append((n, L))
                outs.append(n)
            elif outer and x < .85 and self.branch:
                outs.append(r.choice(outer))
            else:
                n = self.name(b, True)
                src = [q for q, l in b.vec if l == L]
                if src:
                    self.node(b, r.choice(['Neg', 'Abs']), [r.choice(src)], [n], True)
                else:
                    self.node(b, 'Constant', [], [n], True, value=numpy_helper.from_array(np.arange(L, dtype=np.float32)))
                b.vec.append((n, L))
                outs.append(n)
        return helper.make_graph(b.nodes, 'b', [], [helper.make_tensor_value_info(o, TensorProto.FLOAT, ['n']) for o in outs], b.inits)

    def if_node(self, s, depth):
        r = self.r
        c = self.condition(s, depth > 0)
        lens = [r.choice([l for _, l in s.vec]) for _ in range(r.choice([1, 1, 2, 3]))]
        inner = depth > 0
        # an output of the If may be called like a tensor inside its branches
        t = self.branch_graph(s, lens, depth + 1)
        e = self.branch_graph(s, lens, depth + 1)
        outs = [self.name(s, inner) for _ in lens]
        if len(outs) > 1 and r.random() < .1:
            outs[r.randrange(len(outs) - 1)] = ''
        self.node(s, 'If', [c], outs, inner, then_branch=t, else_branch=e)
        s.vec += [(o, l) for o, l in zip(outs, lens) if o]

    def step(self, s, depth):
        r = self.r
        inner = depth > 0
        self.nodes_left -= 1
        x = r.random()
        if x < .3 and depth < 3 and self.nodes_left > -15:
            return self.if_node(s, depth)
        if x < .45 and not (inner and self.branch is None):
            return self.topk(s, inner)
        if x < .5:
            return self.loop_node(s, inner)
        n = self.name(s, inner)
        v, L = r.choice(s.vec)
        if x < .8:
            self.node(s, r.choice(['Neg', 'Abs', 'Relu', 'Identity'] if not inner else ['Neg', 'Abs']), [v], [n], inner)
        else:
            self.node(s, 'Add', [v, r.choice([q for q, l in s.vec if l == L])], [n], inner)
        s.vec.append((n, L))

    def build(self):
        r = self.r
        s = self.top
        for _ in range(r.randint(1, 2)):
            n = self.graph_input(TensorProto.FLOAT, np.array(r.sample(range(-40, 40), 6), np.float32) / 8)
            s.vec.append((n, 6))
            s.names.add(n)
        for _ in range(r.randint(0, 2)):
            n = self.graph_input(TensorProto.BOOL, np.array([r.random() < .5]))
            s.cond.append(n)
            s.names.add(n)
        s.names |= {f'in{k}' for k in range(20)}
        while self.nodes_left > 0:
            self.step(s, 0)
        made = [o for nd in s.nodes for o in nd.output if o]
        vec = dict(s.vec)
        last = [n for n in made if n in vec]
        used = {i for nd in s.nodes for i in nd.input}
        self.outs = list(dict.fromkeys([n for n in last if n not in used and r.random() < .7] + [r.choice(last) for _ in range(2)] if last else []))
        if r.random() < .2:
            cs = [c for c in s.cond if c in made]
            if cs:
                self.outs.append(r.choice(cs))
        if r.random() < .15:
            ks = [k for k, _ in s.ks if k in made]
            if ks:
                self.outs.append(r.choice(ks))
        self.outs = list(dict.fromkeys(self.outs))
        typ = lambda o: TensorProto.BOOL if o in s.cond else TensorProto.INT64 if o in dict(s.ks) else TensorProto.FLOAT
        g = helper.make_graph(s.nodes, 'g', self.inputs, [helper.make_tensor_value_info(o, typ(o), ['m']) for o in self.outs], s.inits)
        return helper.make_model(g, opset_imports=[helper.make_opsetid('', 9 if self.old else 12)], ir_version=8)


def force(m, branch, fk):
    """The same model with every condition and size replaced by a constant."""
    m2 = onnx.ModelProto()
    m2.CopyFrom(m)
    used = set()

    def go(g):
        for nd in g.node:
            if nd.op_type == 'If' and branch:
                nd.input[0] = 'forced condition'
                used.add('c')
            if nd.op_type == 'TopK' and fk:
                if len(nd.input) > 1:
                    nd.input[1] = 'forced size'
                    used.add('k')
                else:
                    for a in nd.attribute:
                        if a.name == 'k':
                            a.i = fk
            for a in nd.attribute:
                if a.type == a.GRAPH:
                    go(a.g)
    go(m2.graph)
    if 'c' in used:
        m2.graph.initializer.append(numpy_helper.from_array(np.array([branch == 'then']), 'forced condition'))
    if 'k' in used:
        m2.graph.initializer.append(numpy_helper.from_array(np.array([fk], np.int64), 'forced size'))
    return m2


# ------------------------------------------------------------------ records
def digest(arr):
    arr = np.asarray(arr)
    return f'{arr.dtype}{list(arr.shape)}:' + hashlib.sha1(np.ascontiguousarray(arr).tobytes()).hexdigest()[:10]


def enc_node(nd):
    attrs, subs = [], []
    for a in nd.attribute:
        if a.type == a.GRAPH:
            subs.append(dict(k=a.name, g=enc_graph(a.g)))
        elif a.type == a.TENSOR:
            attrs.append([a.name, digest(numpy_helper.to_array(a.t))])
        else:
            attrs.append([a.name, str(helper.get_attribute_value(a))])
    return dict(name=nd.name, op=nd.op_type, attrs=sorted(attrs), ins=list(nd.input), outs=list(nd.output), subs=sorted(subs, key=lambda s: s['k']))


def enc_graph(g):
    return dict(inits=[dict(n=i.name, d=digest(numpy_helper.to_array(i))) for i in g.initializer], ins=[i.name for i in g.input],
                nodes=[enc_node(n) for n in g.node], outs=[o.name for o in g.output])


def enc_loaded(g):
    nodes = [(name, nd.make_nodeproto()) for name, nd in g.nodemap.items()]
    made = {o for _, n in nodes for o in n.output}
    used = {i for _, n in nodes for i in n.input} | {c for nd in g.nodemap.values() for c in nd.captured} | set(g.output)
    inits, ins = [], []
    for t in sorted(used - made - {''}):
        tt = g.tensormap.get(t)
        if tt is not None and tt.type == STATIC_TENSOR and tt.numpy is not None:
            inits.append(dict(n=t, d=digest(tt.numpy)))
        elif tt is not None:
            ins.append(t)
    return dict(inits=inits, ins=ins, nodes=[dict(enc_node(p), name=n) for n, p in nodes], outs=list(g.output))


def look(g):
    return [[(n, nd.op_type, list(nd.input), list(nd.output), list(nd.captured)) for n, nd in g.nodemap.items()], list(g.input), list(g.output),
            sorted(g.initials), sorted((k, sorted(v)) for k, v in g.producedby.items()), sorted((k, sorted(v)) for k, v in g.consumedby.items() if v)]


def execute(net, m, g, d):
    """why the saved model is not the forced one: (saved, results, shapes)"""
    dst = os.path.join(d, 'o.onnx')
    ok, _, err = call(g.save_model, dst, rawmodel=m)
    if not ok:
        return 'save_model raised ' + err, '', ''
    try:
        res = onnx.load_model(dst)
        onnx.checker.check_model(res)
    except Exception as e:
        return f'{type(e).__name__}: ' + str(e)[:150], '', ''
    for o in res.opset_import:
        o.version = 9 if net.old else 12
    del res.graph.value_info[:]
    want = ReferenceEvaluator(force(m, net.branch, net.fk)).run(None, net.feeds)
    try:
        got = ReferenceEvaluator(res).run(net.outs, {i.name: net.feeds[i.name] for i in res.graph.input})
    except Exception as e:
        return '', f'{type(e).__name__}: ' + str(e)[:150], ''
    for o, a, b in zip(net.outs, want, got):
        if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b):
            return '', f'{o} is {b.tolist()} instead of {a.tolist()}', ''
    if not net.loop and (net.fk or not net.topks) and net.branch:
        ok, _, err = call(g.shape_infer, {i: net.feeds[i] for i in g.input})
        if not ok:
            return '', '', 'shape_infer raised ' + err
        for o, a in zip(net.outs, want):
            if vlib.dims(g.tensormap[o].get_shape()) != list(a.shape):
                return '', '', f'{o} has {list(a.shape)}'
    return '', '', ''


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Branch', workers=6, timeout=3000, consts=dict(MaxNodes=3 if T else 2))
    r = vlib.rng('c19')
    cases = []
    A = chk.actions
    with tempfile.TemporaryDirectory(prefix='verif_c19_') as d:
        src = os.path.join(d, 'i.onnx')
        while len(cases) < (8000 if T else 2000):
            net = Net(r)
            m = net.build()
            if not net.outs or (net.branch and all(n.op_type != 'If' for n in m.graph.node) and r.random() < .9):
                continue
            try:
                if not net.branch:
                    onnx.checker.check_model(m)
                ReferenceEvaluator(force(m, net.branch, net.fk)).run(None, net.feeds)
            except Exception as e:
                A['generator rejects'] = A.get('generator rejects', 0) + 1
                if A['generator rejects'] > 2 * len(cases) + 200:
                    raise vlib.Machinery('generator: ' + str(e))
                continue
            given = enc_graph(m.graph)
            onnx.save_model(m, src)
            cfg = {}
            if net.branch:
                cfg['if_fixed_branch'] = net.branch
            if net.fk:
                cfg['fixed_topk'] = net.fk
            nm = [n.name for n in m.graph.node]
            rec = dict(m=given, h=given, outs=[], one=[n for n in nm if n and nm.count(n) == 1], again=True, saved='', run='', shapes='',
                       cfg=dict(branch=net.branch or '', k=digest(np.array([net.fk])) if net.fk else '', kn=str(net.fk)))
            ok, model, err = call(ot.Model, src, cfg)
            rec.update(ok=ok, err=err)
            if ok:
                g = model.graph
                rec['h'] = enc_loaded(g)
                rec['outs'] = list(g.output)
                before = look(g)
                okr, _, err = call(g.update_graph)
                rec['again'] = okr and look(g) == before
                rec['saved'], rec['run'], rec['shapes'] = execute(net, model.mproto, g, d)
            A['ifs'] = A.get('ifs', 0) + sum(n.op_type == 'If' for n in m.graph.node)
            A['topks'] = A.get('topks', 0) + net.topks
            A['loops'] = A.get('loops', 0) + net.loop
            sig = f'{cfg} ' + ' '.join(f"{n.op_type}({','.join(n.input)})->{','.join(n.output)}" for n in m.graph.node) + f' out={",".join(net.outs)}'
            cases.append(dict(sig=sig, rec=rec, info=dict(model=onnx.printer.to_text(m))))
    chk.validate('T_Branch', cases, shard=60)
    chk.assumptions += ['Ifs and TopKs inside loop bodies are not nodes of the loaded graph and stay as they are']
