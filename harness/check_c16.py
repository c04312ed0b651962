"""C16: pattern search."""
import copy, json
from onnx import helper
import graphdrv as gd
import vlib
from vlib import call, names

ot = gd.ot
from onnx_tool import fusion as F

KINDS = ('Relu', 'Add', 'Split', 'Sum', 'Neg', 'LSTM', 'Conv', 'MatMul')


def with_attrs(g, r):
    g = copy.deepcopy(g)
    for nd in g['nodes']:
        nd['a'] = []
        if nd['op'] == 'Conv':
            nd['a'] = [dict(k='kernel_shape', v=[r.choice([1, 3, 7, 9]) for _ in range(r.choice([1, 2, 2, 3]))])]
            if r.random() < .5:
                nd['a'].append(dict(k='group', v=[r.choice([1, 2])]))
            else:
                nd['a'].append(dict(k='group', v=[1], default=True))   # ONNX default
        if nd['op'] in ('Split', 'Concat'):
            nd['a'] = [dict(k='axis', v=[r.choice([0, 1])])]
    return g


def model_of(g):
    m = gd.to_model(g)
    for nd, src in zip(m.graph.node, g['nodes']):
        del nd.attribute[:]
        for a in src['a']:
            if a.get('default'):
                continue
            v = a['v'] if a['k'] in ('kernel_shape',) else a['v'][0]
            nd.attribute.append(helper.make_attribute(a['k'], v))
    return m


def descs_of(raw):
    """The pattern description as it was given, as data."""
    out = []
    for d in raw:
        ops = d['op'] if isinstance(d['op'], list) else [d['op']]
        out.append(dict(name=str(d['name']), ops=names(ops),
                        attrs=[dict(a=e[0], rel=e[1], idx=e[2] if len(e) == 4 else -1, num=e[-1]) for e in d['attrs']],
                        ins=[{'at': i[0], 'of': i[1], 'from': i[2]} for i in d['inport']],
                        outs=[{'from': o[0], 'to': o[1], 'at': o[2]} for o in d['outport']]))
    return out


def observed(g, attrs):
    st = vlib.graph_state(g, relations=False)
    return dict(nodes=[dict(n=n['n'], op=n['op'], i=n['i'], o=n['o'], a=[dict(k=x['k'], v=x['v']) for x in attrs.get(n['n'], [])]) for n in st['nodes']],
                inp=st['inp'], out=st['out'], ini=st['ini'])


def rand_pattern(r, g):
    """A random pattern: a connected piece of the graph, generalised or disturbed."""
    nodes = g['nodes']
    start = r.choice(nodes)
    pick = [start]
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        near = [n for n in nodes if n not in pick and any(set(n['i']) & set(p['o']) - {''} or set(p['i']) & set(n['o']) - {''} for p in pick)]
        if near:
            pick.append(r.choice(near))
    descs = []
    for n in pick:
        op = n['op']
        if r.random() < .2:
            op = r.choice([['Relu', 'Neg', 'Add'], 'Any', [n['op'], 'Conv']])
        attrs = []
        if n['op'] == 'Conv' and r.random() < .6:
            attrs = [['kernel_shape', r.choice(['<=', '<', '>=', '>', '==']), r.choice([0, 1]), r.choice([1, 3, 7])]]
            if r.random() < .3:
                attrs.append(['group', '==', 1])
        if n['op'] == 'Split' and r.random() < .4:
            attrs = [['axis', '==', r.choice([0, 1])]]
        descs.append(dict(name='d_' + n['n'], op=op, attrs=attrs, inport=[], outport=[]))
    for a in range(len(pick)):
        for b in range(len(pick)):
            for o, t in enumerate(pick[a]['o']):
                for i, u in enumerate(pick[b]['i']):
                    if t == u and t and r.random() < .9:
                        fo = -1 if r.random() < .3 else (o if r.random() < .93 else o + 1)
                        fi = -1 if r.random() < .3 else (i if r.random() < .93 else 1 - i if i < 2 else 0)
                        where = r.choice(['out', 'in', 'both', 'both'])
                        if where != 'in':
                            descs[a]['outport'].append([fo, descs[b]['name'], fi])
                        if where != 'out':
                            descs[b]['inport'].append([fi, descs[a]['name'], fo])
    return descs


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Pattern', workers=8, timeout=800, expect_actions=('Build', 'Outputs'), consts=dict(MaxNodes=4 if T else 3))
    behs = gd.gen(chk, ['Sort'], 900 if T else 200, kinds=KINDS, ops=1, nodes=(2, 7))
    behs += gd.gen(chk, ['Skip', 'Dangle', 'Fuse'], 400 if T else 100, kinds=KINDS, ops=2, nodes=(3, 7))
    behs += gd.gen(chk, ['Sort'], 400 if T else 100, kinds=('Relu', 'Add', 'Neg'), ops=1, nodes=(4, 8), inputs=1, weights=1)
    r = vlib.rng('c16')
    cases = []
    for b in behs:
        g0 = with_attrs(b['g'], r)
        attrs = {n['n']: n['a'] for n in g0['nodes']}
        ok, g, err = call(lambda: ot.Model(model_of(g0)).graph)
        if not ok:
            chk.reject('load', 'loading raised ' + err, b)
            continue
        dead = False
        for o in b['ops']:
            s = gd.step(g, o['op'], list(o['a']), list(o['b']), chk.dir)
            dead = dead or not s['ok']
        if dead or not g.nodemap:
            continue
        obs = observed(g, attrs)
        for n in obs['nodes']:       # a fused node has renamed attributes
            if n['op'] == 'Fused':
                n['a'] = []
        for how in ('chain', 'descs', 'ports', 'ports'):
            inplace = r.random() < .35
            rec = dict(g=obs, p=dict(inplace=inplace, descs=[]), ok=True, err='', res=[], chain=[], must=[], search=True)
            rec['from'] = []
            if how == 'chain':
                k = r.choice([1, 2, 2, 3, 3, 4])
                # follow the graph half of the time
                x = r.choice(obs['nodes'])
                ops = [x['op']]
                while len(ops) < k:
                    succ = [n for n in obs['nodes'] if set(x['o']) & set(n['i']) - {''}]
                    if succ and r.random() < .85:
                        x = r.choice(succ)
                        ops.append(x['op'])
                    else:
                        ops.append(r.choice(['Relu', 'Add', 'Neg']))
                rec['chain'] = ops
                raw = lambda: F.createSerialOpChain(list(ops))
                plain = not inplace
            elif how == 'descs':
                xs = r.sample([n['n'] for n in obs['nodes']], min(len(obs['nodes']), r.choice([1, 2, 3, 4])))
                rec['from'] = xs
                raw = lambda: F.create_descs_from_nodenames(g, list(xs))
                plain = False
            else:
                ds = rand_pattern(r, obs)
                raw = lambda: ds
                plain = False
            ok, descs, err = call(raw)
            if ok:
                rec['p']['descs'] = descs_of(descs)
                ok, pat, err = call(lambda: F.createSerialPattern(list(ops)) if plain else F.FusionPattern(copy.deepcopy(descs), inplace_fusion=inplace))
            if ok:
                # nodes without a connection to the first cannot be demanded: then only the description is judged
                rec['search'] = connected(rec['p']['descs'])
                ok, res, err = call(pat.search_pattern, g)
                if ok:
                    rec['res'] = [names(x) for x in res]
            rec['ok'], rec['err'] = ok, err
            cases.append(dict(sig=how + ':' + sig(rec), rec=rec, info=dict(g=obs)))
            chk.actions[how] = chk.actions.get(how, 0) + 1
    chk.validate('T_Pattern', cases, shard=120)
    library(chk)


def connected(descs):
    adj = {d['name']: set() for d in descs}
    for d in descs:
        for o in d['outs']:
            adj[d['name']].add(o['to']); adj[o['to']].add(d['name'])
        for i in d['ins']:
            adj[d['name']].add(i['of']); adj[i['of']].add(d['name'])
    seen, todo = set(), [descs[0]['name']]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += adj[x]
    return len(seen) == len(descs)


def sig(rec):
    return ';'.join(f"{n['op']}({','.join(n['i'])})->{','.join(n['o'])}" for n in rec['g']['nodes']) + '|' + ','.join(rec['g']['out']) + \
        '|' + json.dumps([(d['ops'], d['ins'], d['outs']) for d in rec['p']['descs']]) + str(rec['p']['inplace'])


LN = [('m', 'ReduceMean', ['a'], ['b']), ('s', 'Sub', ['a', 'b'], ['c']), ('p', 'Pow', ['c', 'w1'], ['d']), ('v', 'ReduceMean', ['d'], ['e']),
      ('e', 'Add', ['e', 'w2'], ['f']), ('q', 'Sqrt', ['f'], ['h']), ('d', 'Div', ['c', 'h'], ['z'])]
MHA = [('a1', 'QLinearMatMul', ['a', 'x2'], ['b']), ('a2', 'DequantizeLinear', ['b', 'w1'], ['c']), ('a3', 'Div', ['c', 'w1'], ['d']),
       ('a4', 'Add', ['d', 'x2'], ['e']), ('a5', 'Softmax', ['e'], ['f']), ('a6', 'QuantizeLinear', ['f', 'w1'], ['h']), ('a7', 'QLinearMatMul', ['h', 'x2'], ['z'])]
CB = [('k', 'Conv', ['a', 'w1'], ['b']), ('bn', 'BatchNormalization', ['b', 'w2', 'w2', 'w2', 'w2'], ['z'])]
CR = [('k', 'Conv', ['a', 'w1'], ['b']), ('ad', 'Add', ['x2', 'b'], ['c']), ('re', 'Relu', ['c'], ['z'])]
FE = [('k', 'MatMul', ['a', 'w1'], ['b']), ('re', 'LeakyRelu', ['b'], ['z'])]


def library(chk):
    """The patterns shipped with the tool find the graphs they are named after, in any context."""
    r = vlib.rng('c16lib')
    cases = []
    for nm, pat, body in (('layernorm', F.layernorm_pattern, LN), ('mha', F.MHAint8_Pattern, MHA), ('convbn', F.ConvBN, CB),
                          ('convres', F.Conv_Res, CR), ('fused', F.Fused_Element, FE)):
        for k in range(12 if vlib.THOROUGH else 6):
            nodes, must, src = [], [], 'x1'
            for rep in range(r.choice([1, 2])):
                if r.random() < .5:
                    nodes.append(dict(n=f'pre{rep}', op='Neg', i=[src], o=[f'pre{rep}o'], a=[]))
                    src = f'pre{rep}o'
                mp = {t: f'{t}_{rep}' for n in body for t in n[3]}
                mp['a'] = src
                for n in body:
                    a = [dict(k='kernel_shape', v=[3, 3])] if n[1] == 'Conv' else []
                    nodes.append(dict(n=f'{n[0]}_{rep}', op=n[1], i=[mp.get(t, t) for t in n[2]], o=[mp[t] for t in n[3]], a=a))
                must.append([f'{n[0]}_{rep}' for n in body])
                src = mp['z']
            if r.random() < .5:
                r.shuffle(nodes)
            g0 = dict(nodes=nodes, inp=['x1', 'x2'], out=[src], ini=['w1', 'w2'])
            ok, g, err = call(lambda: ot.Model(model_of(g0)).graph)
            rec = dict(g=g0, p=dict(inplace=False, descs=[]), ok=ok, err=err, res=[], chain=[], must=must, search=True)
            rec['from'] = []
            if ok:
                p = F.FusionPattern(pat)
                rec['p']['descs'] = descs_of(pat)
                ok, res, err = call(p.search_pattern, g)
                rec['ok'], rec['err'], rec['res'] = ok, err, [names(x) for x in res] if ok else []
            cases.append(dict(sig=f'library:{nm}:' + sig(rec), rec=rec, info=g0))
    chk.actions['library'] = len(cases)
    chk.validate('T_Pattern', cases, shard=12)
