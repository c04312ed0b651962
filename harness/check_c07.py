"""C07: what is not set or does not fit is refused by name; afterwards the graph works as if nothing had happened."""
import check_c06
import modelgen as mg
import vlib

DECL = ['sym', 'unknown', 'negative', 'norank', 'fixed']


class Misfits(mg.ModelGen):
    """Models in which most operands have to fit together."""

    def data(self):
        r = self.r
        x = self.pick(self.datas())
        k = r.random()
        if k < .35:
            y = self.pick(self.datas())
            return self.emit(r.choice(['Add', 'Mul', 'Sub', 'Max', 'Div', 'Min', 'Pow']), [x, y])
        if k < .45:
            y = self.pick(self.datas(self.rank(x)))
            return self.emit('Concat', [x, y], {'axis': r.randrange(self.rank(x))})
        if k < .5:
            y = self.pick(self.datas())
            return self.emit('Where', [self.emit('Less', [x, y]), x, y])
        if k < .6 and self.rank(x) >= 2:
            y = self.emit('Transpose', [x], {'perm': list(range(self.rank(x) - 2)) + [self.rank(x) - 1, self.rank(x) - 2]})
            return self.emit('MatMul', [x, y]) if y else None
        return super().data()


def run(chk):
    T = vlib.THOROUGH
    chk.model_check('MC_Session', workers=8, timeout=300, expect_actions=('Shape', 'Value', 'Profile', 'Print'), consts=dict(MaxCalls=4))
    r = vlib.rng('c07')
    n = 4000 if T else 1000
    cases = []
    while len(cases) < n:
        m = Misfits(r).build(sinks=r.choice([0, 1, 2]), datas=r.randint(2, 5), ninputs=r.choice([1, 2, 2]))
        if not m.nodes:
            continue
        if r.random() < .25:
            m.through = r.randrange(6)
        declare = r.choice(DECL)
        mp = m.model(declare)
        calls = []
        for _ in range(r.randint(1, 2)):
            calls += r.choice([['shapeNone'], ['shapePart'], ['profile', 'print'], ['shapeA', 'profile'], []])
            calls += ['shapeC'] + r.choice([[], ['profile'], ['print'], ['shapeNone', 'profile'], ['valueA', 'profile'], ['shapeC', 'print']])
            calls += r.choice([['shapeA'], ['shapeB', 'profile'], ['shapeA', 'profile', 'print']])
        d = check_c06.session(m, mp, calls, r, declare)
        refused = sum(1 for s in d.rec['steps'] if s['call'] == 'shape' and not s['ok'])
        chk.actions['refused'] = chk.actions.get('refused', 0) + refused
        for c in calls:
            chk.actions[c] = chk.actions.get(c, 0) + 1
        cases.append(dict(sig='+'.join(calls) + f' {declare} ' + m.sig(), rec=d.rec))
    chk.validate('T_Session', cases, shard=40)
