"""C06: a graph object answers as a fresh one would, whatever was called on it before."""
import numpy as np
import modelgen as mg
import sessiondrv as sd
import vlib


def misfit(m, r):
    """The first assignment with one dimension changed; the specification decides whether it still fits."""
    feed = dict(m.feed(0))
    n = r.choice(list(feed))
    s = list(feed[n].shape)
    if s:
        s[r.randrange(len(s))] += r.choice([1, 2, 3])
    feed[n] = m.g.arr(s, m.dt(n)) if m.dt(n) == 'f32' else np.ones(s, feed[n].dtype)
    return feed


def session(m, mp, calls, r, declare='sym', small=False):
    d = sd.Driver(m, mp, declare)
    for c in calls:
        if c == 'shapeC':
            d.shape(misfit(m, r))
        elif c == 'shapeNone':
            d.shape(None)
        elif c == 'shapePart':
            f = m.feed(1)
            d.shape({n: f[n] for n in list(f)[:1]})
        elif c.startswith('shape'):
            d.shape(m.feed('AB'.index(c[5])))
        elif c.startswith('value'):
            d.value(m.feed('AB'.index(c[5])))
        elif c == 'profile':
            d.profile()
        elif c == 'profileX':
            d.profile(set(r.sample(sorted({n[0] for n in m.nodes}), min(2, len({n[0] for n in m.nodes})))))
        elif c == 'dump':
            known = sorted({t for n in d.rec['nodes'] for t in n['i'] + n['o']} - {''})
            d.dump([r.choice(known + ['nowhere']) for _ in range(r.randint(1, 3))])
        elif c == 'print':
            d.print(metric=r.choice(['MACs', 'FLOPs']))
    d.close()
    return d


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Session', workers=8, timeout=300, expect_actions=('Shape', 'Value', 'Profile', 'Print', 'Dump'), consts=dict(MaxCalls=5 if T else 4))
    seqs = chk.generate('Gen_Session', consts=dict(N=4))
    r = vlib.rng('c06')
    r.shuffle(seqs)
    n = 4000 if T else 1100
    cases = []
    while len(cases) < n:
        m = mg.ModelGen(r).build(sinks=r.randint(0, 2), datas=r.randint(2, 5))
        if not m.nodes:
            continue
        declare = r.choice(['sym', 'unknown', 'fixed'])
        mp = m.model(declare)
        for _ in range(2):
            calls = seqs.pop() if seqs else ['shapeA', 'valueB']
            # whatever happened before: the same answers again
            calls = calls + r.choice([['shapeA', 'profile'], ['shapeB', 'profileX', 'print'], ['valueA'], ['shapeA', 'valueB', 'valueA'],
                                      ['valueB', 'shapeA', 'profile'], ['dump', 'valueB', 'valueA']])
            d = session(m, mp, calls, r, declare)
            for c in calls:
                chk.actions[c] = chk.actions.get(c, 0) + 1
            cases.append(dict(sig='+'.join(calls) + ' ' + m.sig(), rec=d.rec))
    chk.validate('T_Session', cases, shard=25)
