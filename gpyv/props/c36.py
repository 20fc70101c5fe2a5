"""Benchmarking utilities, timed by a recorded virtual clock."""
import io, sys, time, types, contextlib
from collections import Counter
from gpyv.core import Stop

table_prints = []
if 'tabulate' not in sys.modules:
    try: import tabulate
    except ImportError:  # optional dependency of pandas, absent here: a stand-in which records the table it is given
        m = types.ModuleType('tabulate'); m.__version__ = '0.9.0'; m.__spec__ = None
        def tabulate_(df, *a, **k): table_prints.append(df); return '|stand-in|\n' + '\n'.join(str(r) for r in df.values.tolist())
        m.tabulate = tabulate_; sys.modules['tabulate'] = m
from GPy_ABCD.Util import benchmarking as B
import pandas as pd

LEVEL = 'exploration'
JIT = True
TECH = 'runtime monitor: benchmarks run on a virtual clock whose readings, pauses and benchmarked calls are logged; an offline checker derives from the log the table that must be reported'
RULE = ('a case benchmarks random recorded functions (own costs, arguments and numbers of runs) on a virtual clock and compares the table returned with the one implied by the recorded log; '
        'distinct by costs; non-trivial = at least two functions')
N = {'quick': 3000, 'thorough': 60000}
MIN = {'monitor_checks': 20000, 'runs logged': 30000, 'merged tables': 300, 'own arguments': 500, 'numba versions': 8, 'repeated rows': 30}
COLS = ['f', 'mean', 'mean excl. 1st', 'best mean ratio', 'best mean1 ratio', 'next mean ratio', 'next mean1 ratio', 't0', 't1', 't2']
CLOCKS = ('perf_counter', 'time', 'monotonic', 'process_time')
REAL = {c: getattr(time, c) for c in CLOCKS} | {'sleep': time.sleep}


class Clock:
    """virtual time: readings cost next to nothing, functions and pauses advance it; everything is logged"""
    def __init__(self, start, tick): self.t, self.tick, self.log = start, tick, []
    def read(self): self.t += self.tick; self.log.append(('read', self.t)); return self.t
    def sleep(self, s): self.t += s; self.log.append(('sleep', s))
    def __enter__(self):
        self.saved = []
        fakes = {c: self.read for c in CLOCKS} | {'sleep': self.sleep, 'perf_counter_ns': lambda: int(self.read() * 1e9)}
        for n, f in fakes.items():
            real = getattr(time, n); self.saved.append((time, n, real)); setattr(time, n, f)
            for k, v in list(vars(B).items()):
                if v is real: self.saved.append((B, k, v)); setattr(B, k, f)
        return self
    def __exit__(self, *a):
        for o, n, v in self.saved: setattr(o, n, v)


def close(a, b): return abs(a - b) <= 1e-6 * max(abs(a), abs(b))

def expected(rows):
    """rows: name -> costs of its runs, in order"""
    mean = lambda l: sum(l) / len(l)
    r = sorted(([n, mean(c), mean(c[1:])] + c[:3] for n, c in rows.items()), key=lambda x: x[1])
    out = []
    for j, (n, m, m1, *ts) in enumerate(r):
        p = r[max(j - 1, 0)]
        out.append([n, m, m1, m / r[0][1], m1 / r[0][2], m / p[1], m1 / p[2], *ts])
    return out

def same_table(df, want): return list(df.columns) == COLS and len(df) == len(want) and all(a[0] == b[0] and all(close(x, y) for x, y in zip(a[1:], b[1:])) for a, b in zip(df.values.tolist(), want))

def consistent(df):
    """what holds of any table, whatever the times"""
    v = df.values.tolist()
    return list(df.columns) == COLS and all(a[1] <= b[1] for a, b in zip(v, v[1:])) and all(close(r[3], r[1] / v[0][1]) and close(r[4], r[2] / v[0][2]) for r in v) and \
        all(close(b[5], b[1] / a[1]) and close(b[6], b[2] / a[2]) for a, b in zip([v[0]] + v, v))


def case(i, rng, ctx):
    clock = Clock(rng.choice([0., 1000., 3e5]), 2. ** -34)
    def function(name):
        costs = [rng.choice([1, 1, 3, 50]) * rng.uniform(.01, 1) for _ in range(12)]; k = [0]
        def f(*a, **kw):
            c = costs[k[0] % 12]; k[0] += 1
            clock.log.append(('call', name, a, kw, c)); clock.t += c
            return 'result'
        return f
    def run(g, *a, **kw):
        out = io.StringIO(); clock.log.clear(); table_prints.clear()
        with clock, contextlib.redirect_stdout(out): r = g(*a, **kw)
        ctx.ev('runs logged', sum(e[0] == 'call' for e in clock.log))
        return r, out.getvalue()
    def calls(name): return [e for e in clock.log if e[0] == 'call' and e[1] == name]
    arg = lambda: rng.choice([3, 'x', [1, 2], (), None, {'a': 1}, 0])
    n = rng.choice([3, 3, 4, 5, 8]); names = rng.sample(['A', 'Lazy', 'b b', 'Eager2', 'long name', 'z'], rng.randint(1, 6))
    with ctx.total('benchmarking'):
        # plain timing
        f = function('f'); a, kw = [arg() for _ in range(rng.randint(0, 3))], {k: arg() for k in rng.sample('pqr', rng.randint(0, 2))}
        k = rng.choice([1, 2, 5]); ts, _ = run(B.timethis, f, k, *a, **kw); c = calls('f')
        ctx.check(len(c) == k == len(ts) and all(close(t, e[4]) for t, e in zip(ts, c)), 'timethis', times=ts, log=c, n=k)
        ctx.check(all(e[2] == tuple(a) and e[3] == kw for e in c), 'timethis-arguments', log=c, args=a, kwargs=kw)
        tables = []
        for r in range(rng.choice([1, 1, 2, 3])):
            pre = ['', 'again ', 'third '][r]
            shared = [pre + x for x in names]; own = [pre + 'own ' + x for x in rng.sample('XYZ', rng.randint(0, 3))] if rng.random() < .5 else []
            if own: ctx.ev('own arguments')
            A = rng.choice([None, [], [arg() for _ in range(rng.randint(1, 3))]]); K = rng.choice([None, {}, {k: arg() for k in rng.sample('pqr', rng.randint(1, 2))}])
            OA = {x: (function(x), rng.choice([[], [arg(), arg()]]), rng.choice([{}, {'s': arg()}])) for x in own}
            wait = rng.choice([0, 1, 20.]); verbose = rng.random() < .3
            d = dict(names=shared, own={x: v[1:] for x, v in OA.items()}, args=A, kwargs=K, n=n, wait=wait)
            df, out = run(B.compare_implementations, {x: function(x) for x in shared}, n, wait, verbose, fs_with_own_args=OA or rng.choice([None, {}]), args=A, kwargs=K)
            want = expected({x: [e[4] for e in calls(x)] for x in shared + own})
            ctx.check(all(len(calls(x)) == n for x in shared + own), 'number-of-runs', log=Counter(e[1] for e in clock.log if e[0] == 'call'), **d)
            ctx.check(all(e[2] == tuple(A or ()) and e[3] == (K or {}) for x in shared for e in calls(x)), 'shared-arguments', log=clock.log, **d)
            ctx.check(all(e[2] == tuple(OA[x][1]) and e[3] == OA[x][2] for x in own for e in calls(x)), 'own-arguments', log=clock.log, **d)
            ctx.check(same_table(df, want), 'table', got=df.values.tolist(), want=want, **d)
            order = [e for e in clock.log if e[0] == 'sleep' or e[0] == 'call']
            if wait:  # a pause before every function, none within
                groups = []
                for e in order:
                    if e[0] == 'sleep': groups.append([e[1], []])
                    elif groups: groups[-1][1].append(e[1])
                    else: groups.append([0, [e[1]]])
                got = [(s, set(g)) for s, g in groups if g]; ref = [(wait, {x}) for x in shared + own]
                ctx.check(got == ref or got == [(0, ref[0][1])] + ref[1:], 'pauses', groups=groups, **d)  # before or between functions
            if verbose: ctx.check(all(f'{x}' in out for x in shared + own) and (not table_prints or any(list(p['f']) == [w[0] for w in want] for p in table_prints)), 'printed', out=out, **d)
            else: ctx.check(out == '', 'printed-when-quiet', out=out)
            tables.append(df)
        if len(tables) > 1:
            if rng.random() < .2: tables.append(rng.choice(tables).copy()); ctx.ev('repeated rows')  # e.g. the same results loaded twice
            if rng.random() < .2: t = rng.choice(tables).copy(); t[COLS[7:]] = t[COLS[7:]].sample(frac=1, axis=1, random_state=rng.randrange(999)).values; t['mean excl. 1st'] *= 1.5; tables.append(t)  # runs of the same name and mean
            ctx.ev('merged tables'); before = [t.values.tolist() for t in tables]
            mg, out = run(B.merge_bench_tables, *tables, verbose=False)
            own = lambda r: tuple(r[:3] + r[7:])
            ctx.check(list(mg.columns) == COLS and sorted(map(own, mg.values.tolist())) == sorted(own(r) for b in before for r in b), 'merge-rows', got=mg.values.tolist(), tables=before)
            ctx.check(consistent(mg) and list(mg.index) == list(range(len(mg))), 'merge-ratios', got=mg.values.tolist())
            ctx.check([t.values.tolist() for t in tables] == before, 'merge-modifies-tables')
    if len(names) > 1: ctx.nontrivial((i, tuple(names), n))
    if i < 3: ctx.sample(tables[0].values.tolist())


def extra(ctx):
    """the numba versions: named as asked, all computing the given function"""
    import numpy as np
    from numba import float64
    def f(x): return x * 2. + 1.
    for prefix in (None, 'p '):
        for parallel in (False, True):
            clock = Clock(0., 2. ** -10)
            pre = prefix or ''
            want = {pre + s for s in ('Base', 'Lazy', 'Eager', 'Eager2', 'Vec Lazy', 'Vec Eager') + (('Parallel', 'Parallel Eager', 'Parallel Eager2') if parallel else ())}
            with ctx.total('numba_comparisons'):
                with clock:
                    df = B.numba_comparisons(f, float64(float64), [float64(float64)], f, [float64(float64)], None, parallel, None, 4, 0, prefix, False, [3.])
                ctx.ev('numba versions', len(df))
                ctx.check(set(df['f']) == want and len(df) == len(want), 'numba-versions', got=sorted(df['f']), want=sorted(want))
                ctx.check(consistent(df), 'numba-table', got=df.values.tolist())
