"""Validity of compiled covariance functions."""
import numpy as np
from gpyv import ref, gen

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: metamorphic covariance oracle (symmetry, positive semidefiniteness, diagonal, transposition, sub-block and permutation consistency) on compiled kernels'
RULE = ('a case compiles a random expression, sets random (also extreme) parameters and evaluates its covariance at random inputs (repeated, sorted or not, far from or '
        'inside change regions); distinct by (tree, case); non-trivial = contains a product or change operator')
N = {'quick': 3600, 'thorough': 60000}
MIN = {'monitor_checks': 6000, 'eigenvalue spectra': 800, 'large inputs': 8}
ASSUMPTIONS = ['eigenvalues are compared to -1e-5 of the largest absolute row sum bound (the periodic kernel uses a polynomial Bessel approximation)']


def case(i, rng, ctx):
    t = gen.canon(rng, 16)
    e = gen.root(t)
    with ctx.total('to_kernel', expr=repr(e)): k = e.to_kernel()
    gen.set_params(k, rng, np)
    X = gen.inputs(rng, np, rng.choice([2, 4, 6, 10])); Z = gen.inputs(rng, np, rng.choice([1, 3, 5]))
    if i % 120 == 11: X, Z = gen.inputs(rng, np, rng.choice([60, 150, 270])), gen.inputs(rng, np, rng.choice([2, 40, 150])); ctx.ev('large inputs')
    if rng.random() < .2: Z = X[:2] + 1e-3
    kt = ref.ktree(k)
    d = dict(expr=repr(e), kernel=kt, X=X.ravel()[:40].tolist(), Z=Z.ravel()[:40].tolist())
    if i < 3: ctx.sample(f'{e} at {X.ravel().tolist()}')
    if any(x in ('*', 'CP', 'CW') for x in flat(ref.unwrap(t))): ctx.nontrivial((t, i))
    with ctx.total('evaluate', **d): K, Kz, Kzr, Kd, Kx = k.K(X), k.K(X, Z), k.K(Z, X), k.Kdiag(X), k.K(np.vstack([X, Z]))
    n = len(X); m = len(Z)
    ctx.check(K.shape == (n, n) and Kz.shape == (n, m) and Kd.shape == (n,), 'shapes', got=[K.shape, Kz.shape, Kd.shape], **d)
    ctx.check(np.all(np.isfinite(K)) and np.all(np.isfinite(Kz)) and np.all(np.isfinite(Kd)), 'not-finite', K=K, **d)
    big = max(np.abs(Kx).max(), np.abs(Kd).max(), 1e-300)
    eq = lambda a, b, r=1e-9: np.all(np.abs(a - b) <= r * big)
    ctx.check(eq(K, K.T), 'asymmetric', K=K, **d)
    ctx.check(eq(Kz, Kzr.T), 'cross-asymmetric', Kz=Kz, Kzr=Kzr, **d)
    ctx.check(eq(np.diag(K), Kd), 'diagonal', K=np.diag(K), Kdiag=Kd, **d)
    ctx.check(np.all(Kd >= -1e-9 * big), 'negative-variance', Kdiag=Kd, **d)
    ctx.check(eq(Kx[:n, :n], K), 'block', **d)
    ctx.check(eq(Kx[:n, n:], Kz), 'cross-block', Kx=Kx[:n, n:], Kz=Kz, **d)
    pr = np.random.permutation(n)
    with ctx.total('permuted', **d): Kp = k.K(X[pr])
    ctx.check(eq(Kp, K[np.ix_(pr, pr)]), 'permutation', **d)
    # Cauchy-Schwarz scaled spectrum: normalise by the diagonal first so that far-apart magnitudes do not hide violations
    s = np.sqrt(np.maximum(np.diag(Kx), 0)); keep = s > 1e-7 * s.max() if s.max() > 0 else s > 0
    if keep.sum() >= 2:
        C = Kx[np.ix_(keep, keep)] / np.outer(s[keep], s[keep])
        ctx.ev('eigenvalue spectra')
        lo = np.linalg.eigvalsh((C + C.T) / 2).min()
        # the error allowance of each entry, from the magnitudes that were added up
        from gpyv.props.c08 import tol_of
        A = np.vstack([X, Z]); mg, er = tol_of(kt, A)
        err = (np.abs(er * np.ones(Kx.shape)) + 1e-11 * mg)[np.ix_(keep, keep)] / np.outer(s[keep], s[keep])
        ctx.check(lo >= -1e-9 - 4 * np.abs(err).sum(1).max(), 'not-positive-semidefinite', lowest=lo, allowance=err.sum(1).max(), **d)
def flat(t):
    if isinstance(t, str): return [t]
    return [t[0]] + [x for c in t[1:] for x in flat(c)]
