"""Shared machinery of the checks: TLC runner, verdict collection, evidence, findings.

Every check is   python harness/run.py <property>   with VERIF_SEED / VERIF_TIER in the
environment.  It runs the implementation from /repo's working tree, lets TLC decide, writes
evidence/<id>.json and ends with exit 0, or exit 1 plus a VIOLATION line.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback, warnings
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    """The check itself could not do its work (never a verdict on the code)."""


def import_repo():
    """Import onnx_tool from the working tree, writing no bytecode there."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import onnx_tool
    real = os.path.realpath(onnx_tool.__file__)
    if not real.startswith(os.path.realpath(REPO)):
        raise Machinery('onnx_tool imported from ' + real)
    return onnx_tool


def rng(tag=''):
    return random.Random(f'{SEED}/{tag}')


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        self.generated = self.distinct = 0
        for m in re.finditer(r'(\d+) states generated[^,\n]*, (\d+) distinct states found', out):
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r'The number of states generated: (\d+)', out)
        if m and not self.generated:
            self.generated = self.distinct = int(m.group(1))
        self.violated = re.findall(r'(?:Invariant|property|Temporal properties?) (\S+) (?:is|was|were) violated', out)
        if 'Action property' in out:
            self.violated += re.findall(r'Action property (\S+) is violated', out)
        self.ok = rc == 0 and 'Model checking completed. No error' in out or \
            (rc == 0 and 'Progress' in out and 'Error' not in out)


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f'verif_{pid}_')
        self.states = self.transitions = self.traces = 0
        self.model_states = self.model_transitions = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.bad = []           # (signature, clauses, case)
        self.actions = {}       # per-action counts of what was replayed
        self.exhaustive = False
        self._n = 0

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=600, heap='3g', consts=None):
        """Run TLC on spec/<module>.tla with spec/<cfg>.cfg in a private copy of the spec folder."""
        self._n += 1
        wd = os.path.join(self.dir, f'tlc{self._n}_{os.getpid()}_{random.randrange(10**9)}')
        shutil.copytree(SPEC, wd)
        e = dict(os.environ)
        e.update(env or {})
        cfgpath = os.path.join(wd, cfg + '.cfg')
        if consts:
            with open(cfgpath, 'a') as f:
                for k, v in consts.items():
                    f.write(f'\nCONSTANT {k} = {v}\n')
        cmd = ['java'] + (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if module.startswith('T_') and not THOROUGH else ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=2']) + [
               '-Xss64m', f'-Djava.io.tmpdir={wd}', f'-Xmx{heap}', '-cp', TLA_CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(wd, 'meta'), '-noGenerateSpecTE',
               '-config', cfg + '.cfg'] + list(extra) + [module + '.tla']
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
            rc, out = p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired as x:
            raise Machinery(f'TLC {module}/{cfg} exceeded {timeout}s')
        finally:
            pass
        r = TlcResult(rc, out, time.time() - t)
        shutil.rmtree(wd, ignore_errors=True)
        return r

    def model_check(self, module, cfg=None, workers=4, timeout=600, expect_actions=(), extra=(), heap='6g', consts=None):
        """Exhaustively check the design model; its invariants must hold and its actions must fire."""
        r = self.tlc(module, cfg or module, workers=workers, timeout=timeout, extra=(['-coverage', '1'] if expect_actions else []) + list(extra),
                     heap=heap, consts=consts)
        if not r.ok:
            raise Machinery(f'model {module} does not check:\n' + r.out[-4000:])
        for a in expect_actions:
            m = re.search(r'<' + a + r' line [^>]*>: (\d+):(\d+)', r.out)
            if not m or int(m.group(2)) == 0:
                raise Machinery(f'vacuous model {module}: action {a} never taken')
            self.actions['model:' + a] = self.actions.get('model:' + a, 0) + int(m.group(2))
        self.states += r.distinct
        self.transitions += r.generated
        self.model_states += r.distinct
        self.notes.setdefault('models', []).append(
            dict(module=module, distinct=r.distinct, generated=r.generated, wall_s=round(r.wall, 1)))
        return r

    def generate(self, module, cfg=None, mode='bfs', num=None, depth=None, timeout=300, env=None, consts=None, workers=1):
        """Let TLC produce behaviours: every line 'GEN <json>' it prints is one behaviour."""
        out = os.path.join(self.dir, f'gen{self._n}.ndjson')
        extra = []
        if mode == 'sim':
            extra = ['-simulate', f'num={num}', '-depth', str(depth or 100), '-seed', str(SEED)]
        r = self.tlc(module, cfg or module, env=env, timeout=timeout, extra=extra, consts=consts, workers=workers)
        if r.rc != 0:
            raise Machinery(f'generator {module} failed:\n' + r.out[-3000:])
        res, seen = [], set()
        for line in r.out.splitlines():
            if line.startswith('"GEN '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault('generators', []).append(
            dict(module=module, behaviours=len(res), states=r.distinct, wall_s=round(r.wall, 1)))
        if not res:
            raise Machinery(f'generator {module} produced nothing:\n' + r.out[-3000:])
        return res

    def _validate(self, module, cases, timeout):
        fd, inp = tempfile.mkstemp(dir=self.dir, suffix='.ndjson')
        with os.fdopen(fd, 'w') as f:
            for c in cases:
                f.write(json.dumps(c['rec'], separators=(',', ':')) + '\n')
        outp = inp + '.out'
        r = self.tlc(module, module, env=dict(CASES=inp, OUT=outp), timeout=timeout)
        if 'Parsing or semantic analysis failed' in r.out:
            raise Machinery(r.out[-1500:])
        if r.rc != 0 or not os.path.exists(outp):
            return None, r
        with open(outp) as f:
            verd = [json.loads(x) for x in f if x.strip()]
        os.unlink(inp); os.unlink(outp)
        return verd, r

    def validate(self, module, cases, shard=400, timeout=400):
        """Check recorded traces of the implementation against spec/<module>.tla.

        cases: list of {'sig': str, 'rec': json-able, 'info': anything}.  TLC writes one line per
        rejected case: {"i": index, "why": [clauses]}.  A record TLC cannot even evaluate is outside
        the specified domain: it is isolated by bisection and reported as such.
        """
        shards = [cases[i:i + shard] for i in range(0, len(cases), shard)]
        first_crash = []

        def run(sh):
            verd, r = self._validate(module, sh, timeout)
            st, tr = r.distinct, r.generated
            if verd is not None:
                return st, tr, [(sh[v['i'] - 1], v['why']) for v in verd]
            first_crash.append(r.out[-2500:])
            if len(sh) == 1:
                m = re.search(r'Error: (.*)', r.out)
                return st, tr, [(sh[0], ['outside the specified domain: ' + (m.group(1)[:160] if m else ''), 'tlc:' + r.out[-600:]])]
            h = len(sh) // 2
            a, b = run(sh[:h]), run(sh[h:])
            return a[0] + b[0], a[1] + b[1], a[2] + b[2]

        with ThreadPoolExecutor(max(1, NPROC - 1)) as ex:
            for st, tr, bad in ex.map(run, shards):
                self.states += st
                self.transitions += tr
                for case, why in bad:
                    self.bad.append((case['sig'], why, case))
        self.traces += len(cases)
        if cases and len(self.samples) < 3:
            c = cases[rng('sample' + module).randrange(len(cases))]
            s = json.dumps(c['rec'])
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000] + '...')
        if first_crash and os.environ.get('VERIF_DEBUG'):
            print(first_crash[0], file=sys.stderr)

    def reject(self, sig, why, info=None):
        """A verdict reached while recording (e.g. a call the specification enables raised)."""
        self.bad.append((sig, why if isinstance(why, list) else [why], dict(sig=sig, rec=info, info=info)))

    # ------------------------------------------------------------- ending
    def finish(self):
        known = load_known(self.pid)
        rep = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rep, exist_ok=True)
        for f in os.listdir(rep):
            if f.startswith(self.pid + '-'):
                os.unlink(os.path.join(rep, f))
        hits, viol = {}, {}
        for sig, why, case in self.bad:
            k = next((k for k in known if re.fullmatch(k['match'], sig) and
                      (not k.get('why') or any(re.search(k['why'], w) for w in why))), None)
            if k:
                hits.setdefault(k['match'], (k, sig, why))
            else:
                viol.setdefault(sig, (why, case))
        for k, sig, why in hits.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        shown = 0
        for n, (sig, (why, case)) in enumerate(sorted(viol.items())):
            if n >= 25:
                print(f'... {len(viol) - 25} further rejected cases')
                break
            path = os.path.join(rep, f'{self.pid}-{n}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, signature=sig, failing=why, seed=SEED, tier=TIER,
                               info=case.get('info'), record=case.get('rec')), f, indent=1, default=str)
            print(f'VIOLATION property={self.pid} replay={path}')
            print('   ', sig, '|', '; '.join(str(w) for w in why)[:400])
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ['(none)'], exhaustive=self.exhaustive)
        if self.actions:
            cov['action_counts'] = self.actions
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(viol))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.dir, ignore_errors=True)
        print(f'{self.pid}: {self.traces} traces, {self.states} states, {len(viol)} violations, '
              f'{len(hits)} known findings, {wall:.1f}s')
        return 1 if viol else 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


# ------------------------------------------------------------ projections
def dims(shape):
    """A shape as TLC can compare it: integers, -7777 for anything that is no integer."""
    if shape is None:
        return [-9999]
    try:
        return [as_int(s) for s in list(shape)]
    except TypeError:
        return [-9999]


def as_int(v, bad=-7777):
    try:
        import numpy
        if isinstance(v, bool) or isinstance(v, str) or v is None:
            return bad
        if isinstance(v, numpy.ndarray):
            if v.size != 1:
                return bad
            v = v.reshape(-1)[0]
        i = int(v)
        if i != v:
            return bad
        if not -2**31 < i < 2**31:
            return bad
        return i
    except Exception:
        return bad


def names(xs):
    return [str(x) for x in xs]


def captured(proto):
    """What the nested graphs of a node take from outside, then-branch first."""
    out = []

    def walk(g):
        known, need = {t.name for t in g.initializer} | {i.name for i in g.input}, []
        for nd in g.node:
            need += [t for t in list(nd.input) + nested(nd) if t and t not in known]
            known.update(nd.output)
        return need + [o.name for o in g.output if o.name not in known]

    def nested(nd):
        return [t for a in sorted(nd.attribute, key=lambda a: a.name, reverse=True) for g in ([a.g] if a.type == 5 else a.graphs) for t in walk(g)]
    return list(dict.fromkeys(nested(proto)))


def caps(nd):
    if nd.op_type not in ('If', 'Loop', 'Scan'):
        return []
    return captured(nd.make_nodeproto())


def graph_state(g, relations=True):
    """The projection of a Graph object all graph specifications speak about."""
    st = dict(nodes=[dict(n=str(k), nn=str(nd.name), op=str(nd.op_type), i=names(nd.input), o=names(nd.output), c=caps(nd))
                     for k, nd in g.nodemap.items()],
              inp=names(g.input), out=names(g.output), ini=sorted(set(names(g.initials))))
    if relations:
        st['prod'] = [dict(t=str(t), n=names(v)) for t, v in g.producedby.items()]
        st['cons'] = [dict(t=str(t), n=names(v) if isinstance(v, (list, tuple)) else [str(v), '?not a list']) for t, v in g.consumedby.items()]
        st['dyn'] = sorted(set(names(g.dynamics)))
        st['tm'] = sorted(names(g.tensormap.keys()))
    return st


def call(fn, *a, **k):
    """Run an API call with output swallowed; returns (ok, result, error text)."""
    import io, contextlib
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return True, fn(*a, **k), ''
    except (Exception, SystemExit) as e:
        return False, None, f'{type(e).__name__}: {e}'[:300]
