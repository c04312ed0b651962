#!/usr/bin/env python3
"""Planted bugs: bug.py make ID... (re)creates patch.diff and confirms tests and demo;
bug.py check ID... runs the property's check on a patched copy; bug.py all does both for every bug."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, shell=isinstance(cmd, str), timeout=timeout)


def scratch():
    d = tempfile.mkdtemp(prefix='bug_')
    w = os.path.join(d, 'repo')
    sh(['cp', '-a', '/repo', w], '/')
    return d, w


def own_lines(w):
    """Lines the patch removes that are no lines of the original commit."""
    base = sh('git rev-list --max-parents=0 HEAD', w).stdout.split()[-1][:7]
    bad, good = [], 0
    for f in sh(['git', 'diff', '--name-only'], w).stdout.split():
        bl = sh(['git', 'blame', '-s', 'HEAD', '--', f], w).stdout.splitlines()
        old = None
        for l in sh(['git', 'diff', '-U0', '--', f], w).stdout.splitlines():
            m = re.match(r'@@ -(\d+)', l)
            if m:
                old = int(m.group(1))
            elif l.startswith('-') and not l.startswith('---'):
                if bl[old - 1].startswith('^' + base):
                    good += 1
                else:
                    bad.append(f'{f}:{old}')
                old += 1
            elif l.startswith('+') and not l.startswith('+++'):
                good += 0.001
    return bad if bad else []


def make(i):
    b = os.path.join(S, i)
    edits = json.load(open(os.path.join(b, 'edit.json')))
    open(os.path.join(b, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(b, 'demo.sh'), 0o755)
    d, w = scratch()
    try:
        r = sh(['bash', os.path.join(b, 'demo.sh')], w)
        if r.returncode != 0:
            return f'{i}: demo fails on the unchanged tree\n' + (r.stdout + r.stderr)[-1500:]
        for e in edits:
            p = os.path.join(w, e['file'])
            s = open(p).read()
            if s.count(e['old']) != 1:
                return f"{i}: {e['file']}: text occurs {s.count(e['old'])} times: {e['old'][:80]}"
            open(p, 'w').write(s.replace(e['old'], e['new']))
        r = sh(['git', 'diff'], w)
        open(os.path.join(b, 'patch.diff'), 'w').write(r.stdout)
        own = own_lines(w)
        if own:
            return f'{i}: changes only lines of our own commits: {own}'
        r = sh(['bash', os.path.join(b, 'demo.sh')], w)
        if r.returncode == 0:
            return f'{i}: demo passes with the patch'
        last = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = sh(f'PYTHONPATH={w} {PY} -m pytest -q -p no:cacheprovider --ignore=tests/test_model_profile.py tests', w)
        m = re.search(r'(\d+) passed', r.stdout)
        if not m or int(m.group(1)) < 13:
            return f'{i}: tests: ' + r.stdout[-600:]
        return f'{i}: ok ({last})'
    finally:
        shutil.rmtree(d)


def check(i, pid=None):
    b = os.path.join(S, i)
    pid = pid or json.load(open(os.path.join(b, 'meta.json')))['property']
    d, w = scratch()
    try:
        r = sh(['git', 'apply', os.path.join(b, 'patch.diff')], w)
        if r.returncode:
            return f'{i}: patch does not apply: ' + r.stderr
        r = sh([PY, 'harness/run.py', pid], V, dict(VERIF_REPO=w))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + pid)]
        why = [l for l in r.stdout.splitlines() if l.startswith('    ')][:1]
        return f"{i}: {pid} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} rc={r.returncode} {len(v)} {why} {r.stderr[-300:] if r.returncode > 1 else ''}"
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(S))
    for i in ids:
        if sys.argv[1] in ('make', 'all'):
            print(make(i), flush=True)
        if sys.argv[1] in ('check', 'all'):
            print(check(i), flush=True)
