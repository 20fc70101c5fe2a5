"""The surrounding process."""
import contextlib, gc, io, locale, logging, multiprocessing, os, random, shutil, signal, sys, tempfile, threading, time, warnings, weakref
import numpy as np
from copy import deepcopy
from gpyv import ref, gen, stub, models, fitted
import matplotlib, matplotlib.pyplot as plt
import GPy_ABCD
from GPy_ABCD import explore_model_space, fit_one_model, fit_mods_not_parallel, fit_mods_parallel_processes, production_rules, BIC, AIC
from GPy_ABCD.KernelExpansion.grammar import expand
from GPy_ABCD.Models.model import GPModel

LEVEL = 'exploration'
JIT = False
WORKERS = 4
CASE_LIMIT = 150
TECH = 'runtime monitor: the state of the process (random generators, warning filters, numerical error handling, directory, environment, files, descriptors, threads, children, figures, output) is recorded around every operation, and finished objects are watched through weak references'
RULE = ('a case runs a random history of operations (simplification, expansion, compilation, fits that succeed, fail or are interrupted, descriptions, predictions, searches with sequential and pool fitters) and compares the recorded process state around each; '
        'distinct by (operation, expression); non-trivial = operations that fit or search')
N = {'quick': 150, 'thorough': 6000}
MIN = {'monitor_checks': 4000, 'op:fit': 40, 'op:fit fails': 20, 'op:retried fit': 15, 'op:search': 40, 'op:pool': 12, 'op:pool fails': 7, 'op:describe': 18, 'op:predict': 18, 'op:simplify': 20, 'op:expand': 18, 'objects released': 60}


class Boom(Exception): pass


def children():
    try: return sorted(int(x) for t in os.listdir('/proc/self/task') for x in open(f'/proc/self/task/{t}/children').read().split())
    except OSError: return sorted(p.pid for p in multiprocessing.active_children())

def settle(f, want, limit=10):
    """resources released asynchronously may take a moment"""
    end = time.monotonic() + limit
    while True:
        multiprocessing.active_children(); got = f()
        if got == want or time.monotonic() > end: return got
        gc.collect(); time.sleep(.02)

def state(np_random):
    st = np.random.get_state()
    s = {'python-random': hash(random.getstate()), 'warning-filters': [f for f in warnings.filters], 'showwarning': (warnings.showwarning, warnings.formatwarning), 'numpy-errors': np.geterr(), 'numpy-error-call': np.geterrcall(),
         'numpy-print': repr(np.get_printoptions()), 'directory': os.getcwd(), 'files': sorted(os.listdir('.')), 'environment': dict(os.environ), 'recursion-limit': sys.getrecursionlimit(), 'switch-interval': sys.getswitchinterval(),
         'signals': [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGUSR1)], 'locale': locale.setlocale(locale.LC_ALL), 'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
         'figures': plt.get_fignums(), 'rc': hash(repr(sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams)))), 'backend': dict.get(matplotlib.rcParams, 'backend'), 'start-method': multiprocessing.get_start_method(),
         'gc': (gc.isenabled(), gc.get_threshold(), gc.get_debug()), 'hooks': (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()), 'streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)), 'umask': umask(), 'affinity': os.sched_getaffinity(0),
         'path': list(sys.path)}
    if np_random: s['numpy-random'] = (st[0], st[1].tobytes(), st[2:])
    return s
def umask():
    m = os.umask(0); os.umask(m); return m


OPS = ['simplify', 'expand', 'compile', 'fit', 'fit', 'fit fails', 'describe', 'predict', 'search', 'search', 'pool', 'pool fails', 'score', 'retried fit']


def case(i, rng, ctx):
    tmp = tempfile.mkdtemp(prefix='gpyv32_'); cwd = os.getcwd()
    try:
        os.chdir(tmp)
        warnings.resetwarnings(); warnings.simplefilter('ignore')
        history(i, rng, ctx)
    finally: os.chdir(cwd); shutil.rmtree(tmp, ignore_errors=True)


def history(i, rng, ctx):
    X, Y = models.data(rng, 6); m = None
    todo = rng.sample(OPS, 6)
    if 'pool' in todo and i % 2: todo.remove('pool')
    if 'pool fails' in todo and i % 2 == 0: todo.remove('pool fails')
    for j, op in enumerate(todo):
        t = gen.canon(rng, 7); e = gen.root(t)
        if op in ('describe', 'predict', 'score') and m is None:
            m = GPModel(X, Y, e)
            try: m.fit(0)
            except np.linalg.LinAlgError: m = None; continue
        d = dict(op=op, expr=ref.to_str(t), history=todo[:j])
        np.random.seed(rng.randrange(2 ** 31)); random.seed(rng.randrange(2 ** 31))
        restarts = 1; deterministic = True
        if op in ('fit', 'fit fails', 'pool', 'pool fails', 'retried fit') and rng.random() < .3: restarts = 2; deterministic = False  # restarts draw new starting points
        dead = []; held = []
        out, errs = io.StringIO(), io.StringIO()
        fd0, th0, ch0 = sorted(os.listdir('/proc/self/fd')), sorted(t.name for t in threading.enumerate()), children()
        orig, init = GPModel.fit, GPModel.__init__
        def watched(self, *a, **kw): init(self, *a, **kw); made.append(weakref.ref(self))
        made = []
        # streams are replaced before the state is recorded
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(errs):
            before = state(deterministic)
            caught = error = None
            GPModel.__init__ = watched
            try: run(op, rng, e, t, X, Y, m, restarts, dead, held, i)
            except np.linalg.LinAlgError as x: caught, error = 'numerical', x
            except (Boom, KeyboardInterrupt) as x: caught, error = repr(x), x  # kept, as a caller may: what it refers to is alive, but nothing may still run
            except ref_timeout(): raise
            except Exception as x: ctx.fail(f'raises:{op}:{type(x).__name__}', error=repr(x), **d); return
            finally: GPModel.fit = orig; GPModel.__init__ = init
            after = state(deterministic)
        if held: m = held[0]
        ctx.ev('op:' + op)
        if op in ('fit', 'fit fails', 'search', 'pool', 'pool fails', 'retried fit'): ctx.nontrivial((op, t, i))
        for k in before: ctx.check(before[k] == after[k], 'process-state-changed:' + k, before=before[k], after=after[k], outcome=caught, **d)
        ctx.check(out.getvalue() == '', 'prints', text=out.getvalue(), **d)
        ctx.check(settle(children, ch0) == ch0, 'child-processes-left', got=children(), before=ch0, **d)
        now = lambda: sorted(t.name for t in threading.enumerate())
        ctx.check(len(settle(now, th0)) <= len(th0), 'threads-left', got=now(), before=th0, **d)
        error = None; gc.collect()
        fds = lambda: len(os.listdir('/proc/self/fd')) <= len(fd0)
        ctx.check(settle(fds, True), 'descriptors-left', got=len(os.listdir('/proc/self/fd')), before=len(fd0), **d)
        # nothing that the caller let go stays alive
        dead += [w for w in made if not any(w() is h for h in held)]
        if dead:
            gc.collect(); alive = [w() for w in dead if w() is not None]; ctx.ev('objects released', len(dead))
            ctx.check(not alive, 'objects-kept-alive', kept=[type(a).__name__ for a in alive][:5], holders=[type(h).__name__ for a in alive[:1] for h in gc.get_referrers(a)][:6], **d)
            del alive
    if i < 3: ctx.sample(f'{todo} on {ref.to_str(t)}')


def ref_timeout():
    from gpyv.core import CaseTimeout
    return CaseTimeout


def run(op, rng, e, t, X, Y, m, restarts, dead, held, i):
    keep = dead.append
    if op == 'simplify':
        k = gen.build_any(gen.composite(rng), rng)._initialise(); str(k), repr(k), k == e, k.is_stationary(), k.contains_base('LIN'); keep(weakref.ref(k))
    elif op == 'expand':
        for k in expand(e, rng.choice(list(production_rules.values()))): keep(weakref.ref(k))
        del dead[6:]
    elif op == 'compile':
        k = e.to_kernel(); gen.set_params(k, rng, np); k.K(X); k.Kdiag(X); keep(weakref.ref(k))
    elif op == 'fit':
        g = GPModel(X, Y, e).fit(restarts, rng.choice(['lbfgsb', 'scg'])); g.compute_utility(BIC); held.append(g)
    elif op == 'fit fails':
        orig, n = GPModel.fit, [0]
        x = rng.choice([Boom, Boom, KeyboardInterrupt]); late = rng.random() < .6
        from GPy.core.gp import GP
        oo = GP.optimize
        def optimize(self, *a, **kw):
            raise x('inside the optimisation')
        def fit(self, *a, **kw): raise x('before the fit')
        if late: GP.optimize = optimize
        else: GPModel.fit = fit
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore'); fit_one_model(X, Y, e, restarts, 'lbfgsb', rng.choice([0, 1, 2]))
        finally: GP.optimize = oo
    elif op == 'retried fit':
        from GPy.core.gp import GP
        fails, oo, n = rng.choice([1, 2]), GP.optimize, [0]
        def optimize(self, *a, **kw):
            n[0] += 1
            if n[0] <= fails: raise Boom('inside the optimisation')
            return oo(self, *a, **kw)
        GP.optimize = optimize
        try:
            with warnings.catch_warnings(): warnings.simplefilter('ignore'); held.append(fit_one_model(X, Y, e, restarts, 'lbfgsb', fails))
        finally: GP.optimize = oo
    elif op == 'describe': m.interpret()
    elif op == 'predict': m.predict(np.linspace(-1, 9, 5)[:, None], full_cov=rng.random() < .5)
    elif op == 'score': m.compute_utility(rng.choice([BIC, AIC]))
    elif op == 'search':
        s = stub.scenario(rng); s['rounds'] = min(s['rounds'], 2)
        real = rng.random() < .4
        f = fit_mods_not_parallel if real else stub.Fitter(i, s['mode'])
        if real: s['rounds'] = rng.choice([0, 1]); s['beam'] = 1; s['starts'] = rng.sample(['WN', 'C', 'LIN'], 2); s['rules'] = [x for x in production_rules['Minimal'] if x.__name__ == 'replace_base']
        res = explore_model_space(X, Y, s['starts'], s['rules'], rng.choice([BIC, AIC, stub.plain]) if not real else BIC, s['rounds'], s['beam'], 1, f, 'lbfgsb', 1, False)
        for g in res[0]: keep(weakref.ref(g))
    elif op in ('pool', 'pool fails'):
        ks = [gen.root(gen.canon(rng, 4)) for _ in range(rng.choice([1, 3, 5]))]
        if op == 'pool':
            for g in fit_mods_parallel_processes(X, Y, ks, restarts): keep(weakref.ref(g))
        else:
            bad = rng.choice(ks).__str__()
            def fit(self, *a, **kw): raise Boom('in a worker')
            GPModel.fit = fit
            fit_mods_parallel_processes(X, Y, ks, restarts, 'lbfgsb', 0)
