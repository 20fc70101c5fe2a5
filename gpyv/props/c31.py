"""Reproducibility across processes."""
import json, os, subprocess, sys, tempfile, shutil
from gpyv import core

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: the same scenarios recorded in processes with different string-hash seeds (hence different iteration orders of every set) and compared outcome by outcome, objects pickled by one process being read and used by the other'
RULE = ('a case runs a batch of simplifications, expansions, compilations, descriptions, single fits and searches with distinct scores in one process, and the same batch in another process with another hash seed which also unpickles what the first produced; '
        'all outcomes must agree; distinct by (batch, scenario); non-trivial = outcome longer than one expression')
N = {'quick': 24, 'thorough': 800}
MIN = {'monitor_checks': 500, 'scenario:search': 60, 'scenario:expand': 120, 'scenario:describe': 60, 'scenario:compile': 60, 'scenario:simplify': 120, 'scenario:fit': 60, 'hash seeds': 16}
COUNT = 48


def run(hashseed, batch, path, mode):
    env = {**os.environ, 'PYTHONHASHSEED': str(hashseed), 'NUMBA_DISABLE_JIT': '1'}
    r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'gpyv.scenarios', batch, str(COUNT), path, mode], env=env, capture_output=True, text=True, cwd=core.HOME)
    if '@@@' not in r.stdout: raise RuntimeError(f'scenario process failed: {r.stdout[-500:]} {r.stderr[-1500:]}')
    return json.loads(r.stdout.split('@@@')[1])


def close(a, b, tol=1e-7):
    """equal, numbers up to rounding (sums over sets run in other orders)"""
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float): return isinstance(b, float) and abs(a - b) <= tol * max(1, abs(a))
    return a == b


def case(i, rng, ctx):
    tmp = tempfile.mkdtemp(prefix='gpyv31_')
    try:
        h = (rng.randrange(1, 2 ** 31), rng.randrange(1, 2 ** 31)); batch = f'{ctx.seed}/{i}'; ctx.ev('hash seeds', 2)
        a = run(h[0], batch, tmp + '/objects', 'w'); b = run(h[1], batch, tmp + '/objects', 'r')
    finally: shutil.rmtree(tmp, ignore_errors=True)
    for j, ((k, x), (_, y)) in enumerate(zip(a, b)):
        ctx.ev('scenario:' + k)
        d = dict(batch=batch, scenario=j, hash_seeds=h, first=x, second=y)
        if "not positive definite" in (x, y): continue
        for o in (x, y):
            if isinstance(o, str) and o.startswith('AssertionError'): ctx.fail('unpickled-object-differs:' + k, **d); break
        else:
            if k not in ('simplify',) and isinstance(x, str) and ':' in x: ctx.fail(f'raises:{k}', **d); continue
            # a few optimisation iterations amplify rounding
            ctx.check(close(x, y, 1e-3 if k == 'fit' else 1e-7), 'outcome-depends-on-process:' + k, **d)
        if len(json.dumps(x)) > 40: ctx.nontrivial((batch, j))
    if i < 3: ctx.sample(a[1])
