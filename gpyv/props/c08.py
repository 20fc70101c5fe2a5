"""Compiled covariance function."""
import numpy as np
from gpyv import ref, gen

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: structure and values of compiled kernels compared with an independent evaluator of the expression, at random parameters and inputs'
RULE = ('a case compiles a random expression, reads back its structure, sets random parameters through the public parameter objects and compares K(X), K(X, Z) and Kdiag(X) '
        'with the expression\'s own meaning; distinct by (tree, inputs); non-trivial = at least one composite below the root')
N = {'quick': 2400, 'thorough': 60000}
MIN = {'monitor_checks': 4000, 'K compared': 2500, 'change compiled': 300, 'product of sums': 80, 'independent instances': 150, 'large inputs': 15}
ASSUMPTIONS = ['values are compared to 2e-5 relative (of the largest term) because the periodic kernel uses a polynomial Bessel approximation']


def mag(kt, X, Z=None):
    """an upper bound of the magnitudes added up in the evaluation"""
    if kt[0] == 'base': return np.abs(ref.kbase(kt[1], kt[2], X, Z))
    if kt[0] == '+': return sum(mag(c, X, Z) for c in kt[1])
    if kt[0] == '*':
        r = 1.
        for c in kt[1]: r = r * mag(c, X, Z)
        return r
    return mag(kt[1], X, Z) + mag(kt[2], X, Z)
def scale(kt):
    """largest possible value of the bounded factors, for absolute errors of near-zero covariances (periodic kernels cross zero)"""
    if kt[0] == 'base': return kt[2].get('variance', 1.) if kt[1] in ('PER', 'STDPER', 'SE', 'C', 'WN') else None
    return None
def tol_of(kt, X, Z=None):
    """error allowance: periodic factors carry an absolute error of 1e-6 of their variance"""
    if kt[0] == 'base':
        m = np.abs(ref.kbase(kt[1], kt[2], X, Z))
        return m, (1e-6 * kt[2].get('variance', 1.) if kt[1] == 'PER' else 0.) + 1e-10 * m
    if kt[0] == '+':
        ps = [tol_of(c, X, Z) for c in kt[1]]
        return sum(p[0] for p in ps), sum(p[1] for p in ps)
    if kt[0] == '*':
        m, e = 1., 0.
        for c in kt[1]:
            cm, ce = tol_of(c, X, Z); m, e = m * cm, e * cm + m * ce + e * ce
        return m, e
    (a, ea), (b, eb) = tol_of(kt[1], X, Z), tol_of(kt[2], X, Z)
    s = kt[3].get('shift_variance', 0.)
    return a + b + s, 4 * (ea + eb) + 1e-9 * (a + b + s)
def close(got, want, kt, X, Z=None, diag=False):
    m, e = tol_of(kt, X, Z)
    if diag: m, e = np.diag(m * np.ones((len(X), len(X)))), np.diag(e * np.ones((len(X), len(X))))
    got = np.asarray(got)
    return got.shape == want.shape and np.all(np.abs(got - want) <= 3 * e + 1e-9 * m + 1e-300)


def values(ctx, k, X, Z, what, **d):
    kt = ref.ktree(k)
    with ctx.total('K', **d): K, Kz, Kd = k.K(X), k.K(X, Z), k.Kdiag(X)
    ctx.ev('K compared', 3)
    for nm, got, want, ok in (('K(X)', K, ref.keval(kt, X), None), ('K(X,Z)', Kz, ref.keval(kt, X, Z), None), ('Kdiag', Kd, ref.kdiag(kt, X), None)):
        good = close(got, want, kt, X, Z if nm == 'K(X,Z)' else None, nm == 'Kdiag')
        ctx.check(good, f'{what}:{nm}', kernel=kt, X=X.ravel()[:20].tolist(), Z=Z.ravel()[:20].tolist(), sizes=(len(X), len(Z)), got=np.asarray(got)[:20].tolist(), want=want[:20].tolist(), **d)


def case(i, rng, ctx):
    t = gen.canon(rng, 16) if rng.random() < .8 else gen.composite(rng)
    if ref.size(t) > 30: return
    n = ref.norm(t)
    with ctx.total('building', tree=ref.to_str(t)):
        e = gen.build(t)
        if isinstance(e, str): return
        e = e._initialise()
    d = dict(expr=repr(e))
    with ctx.total('to_kernel', **d): k = e.to_kernel()
    ctx.check(ref.kshape(ref.ktree(k)) == n, 'structure', kernel=ref.kshape(ref.ktree(k)), expected=n, **d)
    with ctx.total('to_kernel_unrefined', **d): u = e.to_kernel_unrefined()
    ctx.check(ref.kshape(ref.ktree(u)) == n, 'structure-unrefined', kernel=ref.kshape(ref.ktree(u)), expected=n, **d)
    if any(l in ref.CH for l in flat(n)): ctx.ev('change compiled')
    if not isinstance(n, str) and any(not isinstance(c, str) and c[0] == '*' and any(not isinstance(g, str) and g[0] == '+' for g in c[1:]) for c in (n,) + n[1:]): ctx.ev('product of sums')
    if ref.depth(n) >= 2: ctx.nontrivial((n, i))
    X, Z = gen.inputs(rng, np), gen.inputs(rng, np)
    if i % 40 == 9: X, Z = gen.inputs(rng, np, rng.choice([40, 150, 320])), gen.inputs(rng, np, rng.choice([1, 130, 330])); ctx.ev('large inputs')
    if i < 3: ctx.sample(f'{e} at X={X.ravel().tolist()}')
    gen.set_params(k, rng, np)
    values(ctx, k, X, Z, 'values', **d)
    values(ctx, k, X, Z, 'values-after-one-parameter', changed=gen.set_one(k, rng, np), **d)
    if i % 3 == 0:
        gen.set_params(u, rng, np); values(ctx, u, X, Z, 'values-unrefined', **d)
        # compiling again gives an independent kernel in its initial state
        ctx.ev('independent instances')
        before = k.param_array.copy()
        with ctx.total('to_kernel again', **d): k2 = e.to_kernel()
        ctx.check(ref.kshape(ref.ktree(k2)) == n, 'structure-second', **d)
        gen.set_params(k2, rng, np)
        ctx.check(np.array_equal(before, k.param_array), 'instances-share-parameters', **d)
        values(ctx, k, X, Z, 'values-after-second-compilation', **d)
def flat(t):
    if isinstance(t, str): return [t]
    return [t[0]] + [x for c in t[1:] for x in flat(c)]
