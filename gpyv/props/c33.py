"""Concurrent threads."""
import random, sys, threading, time, warnings
import numpy as np
from gpyv import ref, gen, core
from gpyv.scenarios import outcome
from gpyv.props.c31 import close
from gpyv.snap import snap
from GPy_ABCD import production_rules, start_kernels
from GPy_ABCD.KernelExpansion.grammar import expand

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: independent jobs run in several threads under very short switch intervals, with switches injected at random lines of the repository, and every outcome is compared with the same job run alone; shared expressions are snapshotted around concurrent reading'
RULE = ('a case runs 3-6 threads of simplifications, expansions, compilations, descriptions, fits and searches (on expressions of their own, or reading one shared set of expressions) and compares all outcomes with those of one thread; distinct by (jobs, interleaving of the job ends); '
        'non-trivial = jobs of different threads overlapped')
N = {'quick': 160, 'thorough': 6000}
MIN = {'monitor_checks': 2000, 'jobs': 1200, 'overlapping jobs': 800, 'job:search': 100, 'job:fit': 60, 'job:describe': 100, 'job:expand': 150, 'shared readings': 400, 'injected switches': 20000}
KINDS = ['simplify', 'expand', 'compile', 'describe', 'search', 'fit', 'simplify', 'describe']


def tracer(rng, count):
    """yields to other threads at random lines of the repository"""
    root = core.REPO + '/GPy_ABCD'
    def line(frame, event, arg):
        if event == 'line' and rng.random() < .02: count[0] += 1; time.sleep(0)
        return line
    def call(frame, event, arg): return line if frame.f_code.co_filename.startswith(root) else None
    return call

def job(kind, seed):
    out = []
    try: return outcome(kind, random.Random(seed), out, None)
    except np.linalg.LinAlgError: return 'not positive definite'
    except core.CaseTimeout: raise
    except Exception as e: return f'{type(e).__name__}: {e}'

def reading(es, kind, j):
    e = es[j % len(es)]
    if kind == 'expand': return sorted(ref.to_str(ref.root_form(ref.tup(k))) for k in expand(e, production_rules['Minimal']))
    if kind == 'compile': return ref.kshape(ref.ktree(e.to_kernel()))
    if kind == 'print': return str(e), repr(e)
    if kind == 'compare': return [e == x for x in es], e.is_stationary(), e.contains_base('LIN')
    return [str(n) for n in e.traverse()]


def case(i, rng, ctx):
    n = rng.randint(3, 6); shared = rng.random() < .35
    if shared:
        es = [gen.root(gen.canon(rng, 9)) for _ in range(2)] + rng.sample(start_kernels['Default'], 2)
        jobs = [[(rng.choice(['expand', 'compile', 'print', 'compare', 'traverse']), rng.randrange(4)) for _ in range(5)] for _ in range(n)]
        do = lambda kind, j: reading(es, kind, j)
    else:
        jobs = [[(rng.choice(KINDS), f'{ctx.seed}/{i}/{w}/{q}') for q in range(3)] for w in range(n)]
        if rng.random() < .3: jobs = [jobs[0]] + [list(jobs[0]) for _ in range(n - 1)]  # everyone does the same at once
        do = job
    d = dict(jobs=jobs, shared=shared)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        alone = [[do(*a) for a in js] for js in jobs]
        before = [snap(e) for e in es] if shared else None
        got, spans, count = [[None] * len(js) for js in jobs], [], [0]
        gate = threading.Barrier(n); seeds = [rng.random() for _ in range(n)]
        def worker(w):
            gate.wait(); sys.settrace(tracer(random.Random(seeds[w]), count))
            try:
                for q, a in enumerate(jobs[w]):
                    t0 = time.monotonic()
                    try: got[w][q] = do(*a)
                    except BaseException as x: got[w][q] = f'raised {x!r}'
                    spans.append((t0, time.monotonic(), w, q))
            finally: sys.settrace(None)
        old = sys.getswitchinterval(); sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=worker, args=(w,), daemon=True) for w in range(n)]
            for t in ts: t.start()
            for t in ts: t.join()
        finally: sys.setswitchinterval(old)
    ctx.ev('injected switches', count[0])
    over = sum(any(a[2] != b[2] and a[0] < b[1] and b[0] < a[1] for b in spans) for a in spans)
    ctx.ev('overlapping jobs', over)
    if over: ctx.nontrivial((repr(jobs), tuple((s[2], s[3]) for s in spans)))
    for w, js in enumerate(jobs):
        for q, (kind, _) in enumerate(js):
            ctx.ev('jobs'); ctx.ev('shared readings' if shared else 'job:' + kind)
            a, b = alone[w][q], got[w][q]
            if 'not positive definite' in (str(a), str(b)): continue
            ok = (repr(a) == repr(b)) if shared else close(a, b, 1e-3 if kind == 'fit' else 1e-9)
            ctx.check(ok, ('shared-reading-differs:' if shared else 'outcome-depends-on-other-threads:') + kind, alone=a, concurrent=b, thread=w, job=q, **d)
    if shared: ctx.check([snap(e) for e in es] == before, 'shared-expressions-changed', **d)
    if i < 3: ctx.sample(f'{jobs[0]} in {n} threads, ends {[(s[2], s[3]) for s in spans]}')
