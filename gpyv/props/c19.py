"""Predictions."""
import numpy as np
from gpyv import ref, gen, models

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: predictive means, (co)variances and quantiles compared with the independent Gaussian-process posterior of the fitted parameters'
RULE = ('a case builds a model of a random expression on random data, fitted or with random parameters, predicts at random test points (inside, outside, repeated, equal to training points) with random quantiles and options and '
        'compares every entry with the independent posterior; distinct by (tree, data, parameters); non-trivial = posterior recomputed (moderate condition number)')
N = {'quick': 2000, 'thorough': 40000}
MIN = {'monitor_checks': 2500, 'posteriors recomputed': 500, 'fitted models': 40, 'full covariance': 120, 'without likelihood': 120, 'custom quantiles': 200, 'many points': 20, 'parts of kernels': 60, 'other likelihoods': 60, 'large data': 20, 'integer inputs': 40}
ASSUMPTIONS = ['quantiles always include the observation noise, as in GPy', 'white noise is uncorrelated between training and test points, even coinciding ones']


def case(i, rng, ctx):
    from GPy_ABCD.Models.model import GPModel
    t = gen.canon(rng, 9); X, Y = models.data(rng, large=.06)
    if rng.random() < .15:  # whole-number inputs stored as integers, as a calendar year or an index would be; predictions still at any point
        X = rng.choice([0, 0, 1990]) + np.arange(len(X))[:, None] if rng.random() < .5 else np.unique(np.random.randint(-9, 10, len(X)))[:, None]
        Y = Y[:len(X)]; ctx.ev('integer inputs')
    d = dict(expr=ref.to_str(t), X=X.ravel().tolist(), Y=Y.ravel().tolist())
    with ctx.total('GPModel', **d): m = GPModel(X, Y, gen.root(t))
    if i % 10 == 0:
        if not models.optimised(rng, ctx, m): return
        ctx.ev('fitted models')
    elif not models.unoptimised(rng, ctx, m, **d): return
    kt, nz = ref.ktree(m.model.kern), models.noise(m)
    c = models.cond(kt, nz, X); per = models.has_per(kt)
    if not (c < 1e6 and (c < 3e3 or not per)): return
    n = rng.choice([1, 2, 4, 7]) if rng.random() < .95 else rng.choice([130, 300, 520, 1100])
    Z = np.round(np.random.uniform(X.min() - 3, X.max() + 3, n), 4)[:, None]
    if rng.random() < .2: Z = X.copy()
    if rng.random() < .2 and n > 1: Z[1] = Z[0]
    full, lik = rng.random() < .35 and n < 400, rng.random() < .6
    if n > 100: ctx.ev('many points')
    if len(X) > 50: ctx.ev('large data')
    qs = (2.5, 97.5) if rng.random() < .5 else rng.choice([(5., 95.), (25, 75), (50., 99.), (90., 10.), (1, 60)])
    kw = {}
    if full: kw['full_cov'] = True; ctx.ev('full covariance')
    if not lik: kw['include_likelihood'] = False; ctx.ev('without likelihood')
    if qs != (2.5, 97.5): kw['quantiles'] = qs; ctx.ev('custom quantiles')
    part = no = None; ps = [p for p in getattr(m.model.kern, 'parts', []) if hasattr(p, 'Kdiag')]
    if ps and rng.random() < .2:  # the posterior of one of the terms, under the whole model
        kw['kern'] = rng.choice(ps); part = ref.ktree(kw['kern']); ctx.ev('parts of kernels')
    if rng.random() < .12:
        from GPy.likelihoods import Gaussian
        no = round(rng.uniform(.05, 4.), 4); kw['likelihood'] = Gaussian(variance=no); ctx.ev('other likelihoods')
    d.update(part=part, noise_out=no)
    d.update(kernel=kt, noise=nz, Z=Z.ravel().tolist(), kw={a: b for a, b in kw.items() if a not in ('kern', 'likelihood')})
    Z0, X0, Y0, p0 = Z.copy(), X.copy(), Y.copy(), m.model.param_array.copy()
    with ctx.total('predict', **d): p = m.predict(Z, **kw)
    ctx.check(np.array_equal(Z, Z0) and np.array_equal(X, X0) and np.array_equal(Y, Y0) and np.array_equal(m.model.param_array, p0), 'inputs-modified', **d)
    ctx.check(set(p) == {'mean', 'covariance', 'low_quantile', 'high_quantile'}, 'entries', got=list(p), **d)
    mu, cov = ref.gp_predict(kt, nz, X, Y, Z, full, lik, part, no)
    _, var = ref.gp_predict(kt, nz, X, Y, Z, False, True, part, no)
    ctx.ev('posteriors recomputed'); ctx.nontrivial((t, tuple(p0)))
    if part is not None and np.any(var - (nz if no is None else no) <= 0): return  # a term cancelled within rounding by the rest of the model
    K = ref.keval(part or kt, Z); s = np.abs(K).max() + np.abs(ref.keval(part or kt, X, Z)).max()
    e = (1e-6 * c if per else 1e-12 * c) + 1e-8
    tm = e * (1 + np.abs(Y).max()) * (1 + s / nz); tc = e * (1 + s) * (1 + s / nz) 
    if tm > .05 or tc > .05: return
    low, high = ref.gp_quantiles(mu, var, qs)
    def cmp(nm, got, want, tol):
        got = np.asarray(got)
        if not ctx.check(got.shape == want.shape, 'shape:' + nm, got=got.shape, want=want.shape, **d): return
        ctx.check(np.all(np.abs(got - want) <= tol), nm, got=got.ravel().tolist(), want=want.ravel().tolist(), tol=tol, cond=c, **d)
    cmp('mean', p['mean'], mu, tm)
    cmp('covariance' if full else 'variance', p['covariance'], cov, tc)
    tq = tm + 3 * tc / np.sqrt(max(var.min(), 1e-3)) 
    if tq < .1:
        cmp('low_quantile', p['low_quantile'], low, tq); cmp('high_quantile', p['high_quantile'], high, tq)
    if i < 3: ctx.sample(f'{d["expr"]} Z={d["Z"]} {d["kw"]}')
