"""Whole searches with real fits."""
import contextlib, io, warnings
import numpy as np
from gpyv import ref, gen, models, stub
from gpyv.props import c16
from GPy_ABCD import explore_model_space, model_search_rounds, fit_mods_not_parallel, fit_mods_parallel_processes, production_rules, BIC, AIC, AICc
from GPy_ABCD.Models.model import GPModel
from GPy_ABCD.Util import dataAndPlottingUtil as D

LEVEL = 'exploration'
JIT = False
WORKERS = 4
CASE_LIMIT = 200
CAPS = {'quick': 75, 'thorough': 780}
TECH = 'runtime monitor: complete searches with the real fitters, sequential and in process pools; every model they return is judged against independent likelihoods, posteriors, decompositions and grammar neighbours at the parameters it ended with'
RULE = ('a case is a search of random data with random rules, starting kernels, score, beam, rounds, restarts and optimiser, sometimes continued; each returned model is checked for data, expression, kernel, parameter count, likelihood, score, order and round, '
        'and the best ones for predictions and descriptions; distinct by (fitted expressions, scores); non-trivial = at least one round that fitted something')
N = {'quick': 180, 'thorough': 3000}
MIN = {'monitor_checks': 3000, 'models judged': 400, 'likelihoods recomputed': 120, 'rounds replayed': 15, 'posteriors recomputed': 25, 'descriptions parsed': 40, 'pools': 6, 'continued': 4, 'optimised models': 120}


def few(rng):
    """rules whose expansions stay small enough to be fitted"""
    small = ['replace_base', 'remove_some_term', 'replace_with_singleton', 'change_window_constant', 'change_point_linear', 'change_window_linear', 'change_same', 'try_higher_curves', 'plus_base', 'times_base']
    names = rng.sample(small[:8], rng.randint(1, 2)) if rng.random() < .6 else [rng.choice(small[8:])]
    return [f for f in production_rules['All'] if f.__name__ in names]

def dataset(rng):
    X, Y = plain_dataset(rng)
    if rng.random() < .15: Y = Y * rng.choice([1e-3, .1, 1, 30.]) + rng.choice([0, 0, 5., -300., 3e3]) # other units, means far larger than the spread
    return X, Y

def plain_dataset(rng):
    n = rng.choice([8, 11, 14]) if rng.random() < .93 else rng.choice([70, 130, 230]); x = rng.choice([lambda: np.linspace(-3, 5, n), lambda: np.sort(np.round(np.random.uniform(-4, 6, n), 3)), lambda: np.arange(float(n)), lambda: 40 + np.linspace(0, 7, n)])()
    f, g = rng.choice([(np.sin, np.cos), (lambda v: 2 * v + 40 * 0, lambda v: v * 0 + 1), (lambda v: v ** 2 / 9, np.sin)])
    kind = rng.choice(['plain', 'point', 'window']); c = float(np.median(x))
    np.random.seed(rng.randrange(2 ** 31))
    if kind == 'plain': return D.generate_data(f, x, 1, .2)
    if kind == 'point': return D.generate_changepoint_data(x, f, g, c, 1, .2)
    return D.generate_changewindow_data(x, f, g, c - 1, c + 1, 1, .2)

FORM = {'BIC': lambda ll, n, k: -2 * ll + k * np.log(n), 'AIC': lambda ll, n, k: 2 * k - 2 * ll, 'plain': lambda ll, n, k: -ll}


def model(ctx, m, X, Y, score, d):
    t = ref.tup(m.kernel_expression)
    ctx.ev('models judged')
    ctx.check(np.array_equal(m.X, X) and np.array_equal(m.Y, Y) and np.array_equal(m.model.X, X) and np.array_equal(m.model.Y, Y), 'data-of-model', model=str(m.kernel_expression), **d)
    ctx.check(ref.norm(t) == ref.norm(ref.root_form(ref.norm(t))) and ref.root_form(ref.norm(t)) == ref.root_form(ref.sort_t(t)), 'expression-not-canonical', got=repr(m.kernel_expression), **d)
    ctx.check(ref.integrity(m.kernel_expression) == [] and m.kernel_expression.is_root(), 'links', problems=ref.integrity(m.kernel_expression)[:2], **d)
    ctx.check(not m.kernel_expression.parameters, 'expression-holds-parameters', expr=str(m.kernel_expression), **d)
    ctx.check(ref.root_form(ref.kshape(ref.ktree(m.model.kern))) == ref.root_form(ref.sort_t(t)), 'kernel-of-another-expression', expr=str(m.kernel_expression), got=ref.kshape(ref.ktree(m.model.kern)), **d)
    n, k = len(X), ref.n_params(ref.norm(t)) + 1
    ll = m.model.log_likelihood(); w = FORM[score.__name__](ll, n, k)
    ctx.check(m.cached_utility_function is not None and abs(m.cached_utility_function - w) <= 1e-8 * (1 + abs(w)) + 1e-8 * abs(ll) and m.cached_utility_function_type == score.__name__, 'score', got=(m.cached_utility_function, m.cached_utility_function_type), want=w, expr=str(m.kernel_expression), **d)
    kt, nz = ref.ktree(m.model.kern), models.noise(m); c = models.cond(kt, nz, X)
    if c < 1e6 and (c < 1e4 or not models.has_per(kt)):
        want, *_ = ref.gp(kt, nz, X, Y); tol = (1 + abs(want)) * (1e-7 + (1e-5 * c / 1e2 if models.has_per(kt) else 1e-13 * c * 10))
        if tol < .3: ctx.ev('likelihoods recomputed'); ctx.check(abs(ll - want) <= tol, 'likelihood', got=ll, want=want, tol=tol, kernel=kt, **d)
    return kt, nz, c


def replay(ctx, tested, expanded, names, beams, starts, d):
    """the rounds as a reference search would run them, given the scores the models have"""
    T = lambda m: ref.root_form(ref.tup(m.kernel_expression))
    V = lambda m: m.cached_utility_function
    ctx.check(sorted(map(repr, map(T, tested[0]))) == sorted(map(repr, starts)), 'starting-kernels', got=[ref.to_str(T(m)) for m in tested[0]], **d)
    unexp = list(tested[0]); seen = set(map(T, tested[0])); pos = 0
    for r, b in enumerate(beams, 1):
        ctx.ev('rounds replayed')
        ex = expanded[pos:pos + min(b, len(unexp))]; pos += len(ex); ids = {id(m) for m in ex}
        left = [m for m in unexp if id(m) not in ids]
        if not ctx.check(len(left) == len(unexp) - len(ids) and len(ids) == len(ex) == min(b, len(unexp)), 'expanded-not-available', round=r, **d): return
        worst = max((V(m) for m in ex), default=-np.inf)
        ctx.check(all(V(m) >= worst - 1e-12 * abs(worst) for m in left), 'expanded-not-the-best', round=r, expanded=[(str(m.kernel_expression), V(m)) for m in ex], better=[(str(m.kernel_expression), V(m)) for m in left if V(m) < worst][:3], **d)
        want = set()
        for m in ex: want |= {ref.root_form(t) for t in ref.neighbours(ref.norm(ref.tup(m.kernel_expression)), names)}
        want -= seen; got = list(map(T, tested[r]))
        ctx.check(len(got) == len(set(got)) and set(got) == want, 'round', round=r, missing=[ref.to_str(t) for t in want - set(got)][:4], extra=[ref.to_str(t) for t in set(got) - want][:4], **d)
        seen |= set(got); unexp = left + list(tested[r])


def whole(ctx, res, X, Y, score, names, beams, starts, d):
    srt, tested, kexs, expanded, rest = res
    ids = lambda l: sorted(map(id, l)); flat = [m for l in tested for m in l]
    if not ctx.check(len(tested) == len(beams) + 1, 'number-of-rounds', got=len(tested), **d): return None
    ctx.check(all(isinstance(m, GPModel) for m in flat) and ids(srt) == ids(flat) == ids(expanded + rest), 'models-not-accounted', sizes=(len(srt), len(flat), len(expanded), len(rest)), **d)
    T = lambda k: ref.root_form(ref.tup(k))
    ctx.check(sorted(map(repr, map(T, kexs))) == sorted(repr(T(m.kernel_expression)) for m in flat), 'tested-expressions', **d)
    info = {id(m): model(ctx, m, X, Y, score, d) for m in flat}
    for l in [srt, rest] + tested: ctx.check(all(a.cached_utility_function <= b.cached_utility_function for a, b in zip(l, l[1:])), 'order', **d)
    replay(ctx, tested, expanded, names, beams, starts, d)
    return info


def case(i, rng, ctx):
    X, Y = dataset(rng); X0, Y0 = X.copy(), Y.copy()
    rules = few(rng); names = stub.rule_names(rules)
    starts = rng.sample(['WN', 'C', 'LIN', 'PER'], rng.randint(1, 2)) if rng.random() < .6 else [gen.root(gen.canon(rng, 4))]
    st = [ref.root_form(ref.norm(k if isinstance(k, str) else ref.tup(k))) for k in starts]
    restarts = rng.choice([0, 0, 1, 1, 2]); rounds = rng.choice([1, 1, 2, 3] if not restarts else [0, 1, 1, 2]); beam = rng.choice([1, 1, 2]) if rounds < 3 else 1
    if len(X) > 50: restarts, rounds = min(restarts, 1), 0; ctx.ev('large data')
    score = rng.choice([BIC, AIC, stub.plain]); opt = rng.choice(['lbfgsb', 'lbfgsb', 'scg']); pool = rng.random() < .3
    fitter = fit_mods_parallel_processes if pool else fit_mods_not_parallel
    verbose = rng.random() < .3
    d = dict(X=X.ravel().tolist(), Y=Y.ravel().tolist(), rules=names, starts=list(map(str, starts)), restarts=restarts, rounds=rounds, beam=beam, score=score.__name__, optimiser=opt, pool=pool)
    orig = GPModel.fit
    def fit(self, *a, **kw):
        kw.setdefault('max_iters', 25); return orig(self, *a, **kw)
    GPModel.fit = fit  # long optimisations add nothing
    out = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter('ignore')
            res = explore_model_space(X, Y, starts, rules, score, rounds, beam, restarts, fitter, opt, 1, verbose)
    except np.linalg.LinAlgError: ctx.ev('numerical failures'); return
    except Exception as x:
        if type(x).__name__ == 'CaseTimeout': raise
        ctx.fail(f'search-raises:{type(x).__name__}', error=repr(x), **d); return
    finally: GPModel.fit = orig
    if not all(m.model is not None and np.isfinite(m.model.log_likelihood()) for l in res[1] for m in l): ctx.ev('numerical failures'); return
    if pool: ctx.ev('pools')
    ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'data-modified', **d)
    beams = [beam] * rounds
    info = whole(ctx, res, X, Y, score, names, beams, st, d)
    if info is None: return
    n = len(info); ctx.ev('optimised models', n if restarts else 0)
    if rounds and len(res[1][1]): ctx.nontrivial((tuple(repr(ref.tup(m.kernel_expression)) for m in res[0]), tuple(round(m.cached_utility_function, 3) for m in res[0])))
    before = [(m.cached_utility_function, m.model.param_array.tolist()) for m in res[0]]
    for m in res[0][:3]:
        kt, nz, c = info[id(m)]
        dd = dict(model=str(m.kernel_expression), kernel=kt, noise=nz, **d)
        with ctx.total('interpret', **dd): text = m.interpret()
        if finite(kt) and len(c16.expected(kt)) <= 40: ctx.ev('descriptions parsed'); c16.judge(ctx, text, kt, dd)
        Z = np.round(np.linspace(X.min() - 1, X.max() + 2, 5), 3)[:, None]
        with ctx.total('predict', **dd): p = m.predict(Z)
        if c < 1e4 and not models.has_per(kt):
            mu, var = ref.gp_predict(kt, nz, X, Y, Z, False, True); s = np.abs(ref.keval(kt, Z)).max()
            e = (1e-12 * c + 1e-8) * (1 + np.abs(Y).max() + s) * (1 + s / nz)
            if e < .05:
                ctx.ev('posteriors recomputed')
                ctx.check(np.all(np.abs(p['mean'] - mu) <= e) and np.all(np.abs(p['covariance'] - var) <= e), 'posterior', got=(p['mean'].ravel().tolist(), p['covariance'].ravel().tolist()), want=(mu.ravel().tolist(), var.ravel().tolist()), tol=e, **dd)
    ctx.check(before == [(m.cached_utility_function, m.model.param_array.tolist()) for m in res[0]], 'models-changed-by-questions', **d)
    if verbose:
        best = 'Best models overall: ' + ', '.join(str(m.kernel_expression) for m in res[0][:(beams or [len(res[0])])[0]])
        ctx.check(best in out.getvalue(), 'report-of-best', text=out.getvalue()[-500:], want=best, **d)
    if rng.random() < .35 and n < 60:
        GPModel.fit = fit
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore'); res2 = model_search_rounds(X, Y, *res, fitter, rules, score, 1, 1, restarts, opt, 1, False)
        except np.linalg.LinAlgError: return
        except Exception as x:
            if type(x).__name__ == 'CaseTimeout': raise
            ctx.fail(f'continuation-raises:{type(x).__name__}', error=repr(x), **d); return
        finally: GPModel.fit = orig
        if not all(np.isfinite(m.model.log_likelihood()) for l in res2[1] for m in l): return
        ctx.ev('continued'); whole(ctx, res2, X, Y, score, names, beams + [1], st, dict(d, continued=True))
        ctx.check(len(res[1]) == rounds + 1 and [id(m) for l in res[1] for m in l] == [id(m) for l in res2[1][:-1] for m in l], 'earlier-rounds-changed', **d)
    if i < 3: ctx.sample(f'{names} {starts} fitted {[len(l) for l in res[1]]}, best {res[0][0].kernel_expression} {res[0][0].cached_utility_function:.2f}')


def finite(kt):
    import re
    return all(np.isfinite(float(v)) and abs(float(v)) < 1e6 for _, v in re.findall(r"'(\w+)': ([^,}]+)", repr(kt)))
