"""Retries under injected faults."""
import warnings
import numpy as np
from gpyv import ref, gen, models
from GPy.models import GPRegression
from GPy.core.gp import GP
from GPy_ABCD import fit_one_model, fit_mods_not_parallel, explore_model_space
from GPy_ABCD.Models.model import GPModel

LEVEL = 'fault_enumeration'
JIT = False
TECH = 'runtime fault injection: scheduled exceptions at every point of a fit (compilation, model construction, optimisation, mid-restart), with a monitor counting attempts, objects, warnings and outcomes'
RULE = ('a case injects f failures (0-5) of a chosen exception type at a chosen point into fits with max_retries m (0-4, or the default), through fit_one_model, a list fitter or a whole search, and compares attempts, warnings, freshness of the objects and the outcome with '
        'the documented policy; all (f, m, point, type) combinations are covered in rotation; distinct by combination and expression; non-trivial = f > 0')
POINTS = ('compile', 'construct', 'optimise', 'restart')
EXC = (ValueError, np.linalg.LinAlgError, ZeroDivisionError, RuntimeError, FloatingPointError, AssertionError, KeyError, MemoryError, RecursionError, OSError)
N = {'quick': 2100, 'thorough': 20000}
MIN = {'monitor_checks': 8000, 'faults injected': 2500, 'recovered': 400, 're-raised': 400, **{f'point:{p}': 200 for p in POINTS}, 'interrupts': 50, 'lists': 100, 'searches': 100, 'many retries': 8}
COMBOS = [(f, m, p) for f in range(6) for m in (0, 1, 2, 3, 4, None) for p in POINTS]


def case(i, rng, ctx):
    f, m, point = COMBOS[i % len(COMBOS)]
    if i % 37 == 19 and point in ('compile', 'construct'): f, m = rng.randint(6, 30), rng.randint(8, 30); ctx.ev('many retries')
    exc = EXC[(i // len(COMBOS)) % len(EXC)] if rng.random() < .9 else rng.choice([KeyboardInterrupt, SystemExit])
    interrupt = not issubclass(exc, Exception)
    r = 2 if point == 'restart' else rng.choice([0, 1]); retries = 1 if m is None else m
    t = gen.canon(rng, 5); e = gen.root(t); X, Y = models.data(rng, 4)
    how = rng.choice(['one', 'one', 'list', 'search'])
    d = dict(failures=f, max_retries=m, point=point, error_type=exc.__name__, expr=ref.to_str(t), how=how)
    st = dict(n=0, armed=how == 'one', kernels=[], gps=[], raised=[])
    fits = []
    oc, oo, ofit = GPRegression.__init__, GP.optimize, GPModel.fit
    from GPy_ABCD import SumKE, ProductKE, ChangeKE
    classes = (SumKE, ProductKE, ChangeKE); origs = [c.__dict__.get('to_kernel') for c in classes]
    def trip(at):
        if not st['armed'] or at != point or st['n'] >= f: return
        st['n'] += 1; x = exc(f'injected {st["n"]}'); st['raised'].append(x); ctx.ev('faults injected'); ctx.ev('point:' + at); raise x
    depth = [0]
    def wrap(o):
        def to_kernel(self):
            top = depth[0] == 0; depth[0] += 1
            try:
                if top: trip('compile')
                return o(self)
            finally: depth[0] -= 1
        return to_kernel
    def init(self, X, Y, kernel=None, *a, **kw):
        trip('construct')
        st['kernels'].append(kernel); st['gps'].append(self)
        oc(self, X, Y, kernel, *a, **kw)
    def optimize(self, *a, **kw):
        k = getattr(self, 'opt_calls_', 0); self.opt_calls_ = k + 1
        trip('restart' if k else 'optimise')
        if point in ('optimise', 'restart') or r: return oo(self, *a, **kw, **({} if 'max_iters' in kw else {'max_iters': 3}))
        return oo(self, *a, **kw)
    def fit(self, *a, **kw):
        fits.append(self); return ofit(self, *a, **kw)
    if point == 'optimise' and r == 0: r = 1
    for c, o in zip(classes, origs): c.to_kernel = wrap(o)
    GPRegression.__init__ = init; GP.optimize = optimize; GPModel.fit = fit
    target = 0; res = err = None
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                if how == 'one':
                    res = fit_one_model(X, Y, e, r) if m is None else fit_one_model(X, Y, e, r, 'lbfgsb', m) if rng.random() < .5 else fit_one_model(X, Y, e, restarts=r, max_retries=m)
                elif how == 'list':
                    ctx.ev('lists')
                    es = [gen.root(gen.canon(rng, 4)) for _ in range(3)]; target = rng.randrange(3); es[target] = e
                    def fit_t(self, *a, **kw): st['armed'] = self.kernel_expression is e; return fit(self, *a, **kw)
                    GPModel.fit = fit_t
                    res = fit_mods_not_parallel(X, Y, es, r) if m is None else fit_mods_not_parallel(X, Y, es, r, 'lbfgsb', m)
                    ctx.check([x.kernel_expression is y for x, y in zip(res, es)] == [True] * 3 and len(res) == 3, 'list-after-retries', got=[str(x.kernel_expression) for x in res], **d)
                    fits = [x for x in fits if x.kernel_expression is e]; res = res[target]
                else:
                    ctx.ev('searches')
                    es = [gen.root(b) for b in ('WN', 'LIN', 'PER')]; target = rng.randrange(3)
                    name = str(es[target])
                    def fit_t(self, *a, **kw): st['armed'] = str(self.kernel_expression) == name; return fit(self, *a, **kw)
                    GPModel.fit = fit_t
                    kw = {} if m is None else {'max_retries': m}
                    out = explore_model_space(X, Y, start_kernels=es, rounds=0, beam=1, restarts=r, model_list_fitter=fit_mods_not_parallel, verbose=False, **kw)
                    ctx.check(sorted(str(x.kernel_expression) for x in out[0]) == sorted(map(str, es)), 'search-after-retries', got=[str(x.kernel_expression) for x in out[0]], **d)
                    fits = [x for x in fits if str(x.kernel_expression) == name]; t = ref.root_form(name.strip('()'))
                    res = next(x for x in out[0] if str(x.kernel_expression) == name)
            except BaseException as x:
                if x not in st['raised']:
                    if isinstance(x, np.linalg.LinAlgError) or type(x).__name__ == 'CaseTimeout': raise
                err = x
    except np.linalg.LinAlgError: return
    finally:
        for c, o in zip(classes, origs): c.to_kernel = o
        GPRegression.__init__ = oc; GP.optimize = oo; GPModel.fit = ofit
    ctx.ev('interrupts', interrupt and f > 0)
    if f: ctx.nontrivial((f, m, point, exc.__name__, how, t))
    if how != 'one': fits = [x for x in fits if (x.kernel_expression is e if how == 'list' else str(x.kernel_expression) == name)]
    mine = [w for w in ws if 'Retry #' in str(w.message)]
    if interrupt and f:
        ctx.check(err is st['raised'][0] and len(fits) == 1 and not mine, 'interrupt-retried', attempts=len(fits), error=repr(err), **d); return
    attempts = min(f, retries) + 1
    ctx.check(len(fits) == attempts, 'number-of-attempts', got=len(fits), want=attempts, **d)
    ctx.check(len({id(x) for x in fits}) == len(fits), 'model-reused-between-attempts', **d)
    ctx.check(len({id(x) for x in st['kernels']}) == len(st['kernels']) and len({id(x) for x in st['gps']}) == len(st['gps']), 'kernel-or-regression-reused', **d)
    ctx.check(len(mine) == min(f, retries), 'number-of-warnings', got=[str(w.message) for w in mine], want=min(f, retries), **d)
    for j, w in enumerate(mine, 1):
        txt = str(w.message)
        ctx.check(f'Retry #{j} ' in txt and f'max is {retries}' in txt and (f'injected {j}' in txt), 'warning-text', got=txt, **d)
    if f <= retries:
        ctx.ev('recovered')
        if not ctx.check(err is None and isinstance(res, GPModel), 'not-recovered', error=repr(err), **d): return
        ctx.check(res.model is not None and res is fits[-1] and ref.root_form(ref.kshape(ref.ktree(res.model.kern))) == ref.sort_t(ref.root_form(t)), 'recovered-model', got=repr(res.kernel_expression), **d)
        ctx.check(res.restarts == r, 'recovered-restarts', got=res.restarts, **d)
    else:
        ctx.ev('re-raised')
        ctx.check(err is not None and err is st['raised'][-1] and len(st['raised']) == retries + 1, 'not-re-raised', error=repr(err), raised=[repr(x) for x in st['raised']], **d)
    ctx.check(ref.tup(e) == ref.sort_t(ref.tup(e)) and ref.integrity(e) == [] and not e.parameters, 'expression-modified-by-failures', **d)
    if i < 3: ctx.sample(d)
