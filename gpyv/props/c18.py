"""Scores."""
import numpy as np
from gpyv import ref, gen, models

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: scores, log-likelihood, data and parameter counts reported by models compared with an independent Gaussian-process likelihood and parameter count'
RULE = ('a case builds a model of a random expression on random data, fitted or with random parameters, and compares log-likelihood, n, k, BIC, AIC, AICc and what a custom scoring function receives with independent values; '
        'distinct by (tree, data, parameters); non-trivial = the log-likelihood could be recomputed (moderate condition number)')
N = {'quick': 1800, 'thorough': 40000}
MIN = {'monitor_checks': 6000, 'likelihoods recomputed': 500, 'fitted models': 80, 'custom scores': 600, 'AICc': 200, 'scored again': 400, 'fixed parameters': 150}


def nk(m, ll, n, k): return n, k
def deepcopy_of(m):
    """a shallow copy: scoring it leaves the original's cached score alone"""
    import copy
    return copy.copy(m)


def case(i, rng, ctx):
    from GPy_ABCD import BIC, AIC, AICc
    from GPy_ABCD.Models.model import GPModel
    t = gen.canon(rng, 9, ext=.01); X, Y = models.data(rng, large=.06)
    d = dict(expr=ref.to_str(t), X=X.ravel().tolist(), Y=Y.ravel().tolist())
    with ctx.total('GPModel', **d): m = GPModel(X, Y, gen.root(t))
    if i % 10 == 0:
        if not models.optimised(rng, ctx, m): return
        ctx.ev('fitted models')
    elif not models.unoptimised(rng, ctx, m, **d): return
    kt, nz = ref.ktree(m.model.kern), models.noise(m)
    n, k = len(X), ref.n_params(ref.norm(t)) + 1
    d.update(kernel=kt, noise=nz)
    with ctx.total('values', **d): ll, (gn, gk) = m.model.log_likelihood(), GPModel.compute_utility(deepcopy_of(m), nk)
    ctx.check(gn == n, 'number-of-data', got=gn, want=n, **d)
    ctx.check(gk == k, 'number-of-parameters', got=gk, want=k, **d)
    c = models.cond(kt, nz, X)
    tol = 1e-6
    if c < 1e7 and (c < 1e4 or not models.has_per(kt)):
        want, *_ = ref.gp(kt, nz, X, Y); ctx.ev('likelihoods recomputed'); ctx.nontrivial((t, tuple(m.model.param_array)))
        tol = (1 + abs(want)) * (1e-7 + (1e-5 * c / 1e2 if models.has_per(kt) else 1e-13 * c * 10))
        if tol < .3: ctx.check(abs(ll - want) <= tol, 'log-likelihood', got=ll, want=want, tol=tol, cond=c, **d)
    seen = []
    def custom(*a): seen.append(a); return 3.5 * a[1] - a[2] + 10 * a[3]
    order = [(BIC, lambda: -2 * ll + k * np.log(n)), (AIC, lambda: 2 * k - 2 * ll), (custom, lambda: 3.5 * ll - n + 10 * k)]
    if n > k + 1: order.append((AICc, lambda: 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1))); ctx.ev('AICc')
    rng.shuffle(order)
    ctx.check(m.cached_utility_function is None, 'score-before-scoring', got=m.cached_utility_function, **d)
    for f, w in order:
        with ctx.total('compute_utility', **d): s = m.compute_utility(f)
        w = w()
        ctx.check(abs(s - w) <= 1e-9 * (1 + abs(w)) + 1e-9 * abs(ll), 'score:' + f.__name__, got=s, want=w, ll=ll, n=n, k=k, **d)
        ctx.check(m.cached_utility_function == s and m.cached_utility_function_type == f.__name__, 'cached-score', cached=(m.cached_utility_function, m.cached_utility_function_type), got=s, name=f.__name__, **d)
        # the exported functions themselves, on plain numbers
        if f is not custom:
            a, b, e = rng.uniform(-50, 50), rng.randint(20, 500), rng.randint(1, 15)
            want = {'BIC': -2 * a + e * np.log(b), 'AIC': 2 * e - 2 * a, 'AICc': 2 * e - 2 * a + 2 * e * (e + 1) / (b - e - 1)}[f.__name__]
            ctx.check(abs(f(None, a, b, e) - want) <= 1e-9 * (1 + abs(want)), 'formula:' + f.__name__, args=(a, b, e), got=f(None, a, b, e), want=want)
    if seen:
        ctx.ev('custom scores')
        ctx.check(len(seen) == 1 and len(seen[0]) == 4 and seen[0][0] is m.model and seen[0][1] == ll and seen[0][2] == n and seen[0][3] == k, 'arguments-of-custom-score', got=seen, **d)
    # scoring again: other functions of the same name, and the same function after the parameters changed
    ctx.ev('scored again')
    for q in (1., 2.):
        f = lambda mod, a, b, c, q=q: q * a + b - q * c
        with ctx.total('compute_utility', **d): s = m.compute_utility(f)
        ctx.check(s == m.cached_utility_function and abs(s - (q * ll + n - q * k)) <= 1e-9 * (1 + abs(q * ll) + n + q * k), 'score-of-another-function-of-this-name', got=s, want=q * ll + n - q * k, **d)
    f = rng.choice([BIC, AIC])
    with ctx.total('compute_utility', **d): before = m.compute_utility(f)
    try: models.gen_set(m, rng)
    except np.linalg.LinAlgError: return
    with ctx.total('compute_utility', **d): s = m.compute_utility(f)
    l2 = m.model.log_likelihood(); w = -2 * l2 + k * (np.log(n) if f is BIC else 2)
    ctx.check(abs(s - w) <= 1e-9 * (1 + abs(w)) + 1e-9 * abs(l2), 'score-not-of-current-parameters', got=s, want=w, before=before, **d)
    # parameters held fixed are not estimated
    names = m.model.parameter_names_flat(); flat = m.model.flattened_parameters
    if len(names) == len(flat) > 1 and rng.random() < .5:
        pick = rng.sample(range(len(names)), rng.randint(1, len(names) - 1)); ctx.ev('fixed parameters')
        with ctx.total('fix', **d):
            for j in pick: flat[j].fix(warning=False)
            s, (gn, gk) = m.compute_utility(f), GPModel.compute_utility(deepcopy_of(m), nk)
        ctx.check((gn, gk) == (n, k - len(pick)), 'number-of-free-parameters', got=(gn, gk), want=(n, k - len(pick)), fixed=[names[j] for j in pick], **d)
        l3 = m.model.log_likelihood(); w = -2 * l3 + (k - len(pick)) * (np.log(n) if f is BIC else 2)
        ctx.check(abs(s - w) <= 1e-9 * (1 + abs(w)) + 1e-9 * abs(l3), 'score-with-fixed-parameters', got=s, want=w, **d)
    if i < 3: ctx.sample(f'{d["expr"]} ll={ll} k={k} n={n}')
