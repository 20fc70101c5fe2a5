"""Base kernels and sigmoidal kernels."""
import inspect
import numpy as np
from gpyv import ref, gen
from gpyv.props.c08 import close
from GPy_ABCD.Kernels.linearOffsetKernel import LinearWithOffset
from GPy_ABCD.Kernels.linearKernel import Linear
from GPy_ABCD.Kernels.periodicKernel import PureStdPeriodicKernel
from GPy_ABCD.Kernels import sigmoidalKernels as SK, periodicKernel as PK, linearOffsetKernel as LK
from GPy_ABCD.Kernels import baseKernels as BK
from scipy.special import ive

LEVEL = 'exploration'
JIT = True
TECH = 'runtime monitor: native (numba-compiled) kernels compared with independent closed forms over extreme parameters, limits and input layouts; compiled and interpreted versions compared'
RULE = ('a case draws one kernel (linear with/without offset, purely periodic, the four sigmoidal kernels with free or fixed slope, noise, constant, smooth), parameters over '
        'several orders of magnitude incl. the boundaries between evaluation regimes, and inputs of varied layout; distinct by (kernel, parameters); all are non-trivial')
N = {'quick': 40000, 'thorough': 600000}
MIN = {'monitor_checks': 60000, **{f'kernel:{k}': 300 for k in ('LIN', 'Linear', 'PER', 'S', 'Sr', 'SI', 'SIr', 'WN', 'C', 'SE')}, 'PER regime:limit': 200, 'PER regime:direct': 500, 'PER regime:scaled': 300, 'native vs interpreted': 500, 'far from 0': 300, 'large inputs': 50}


def layouts(rng, X):
    m = rng.randrange(6)
    if m == 0: return np.repeat(X, 2, 0)[::2]
    if m == 1: return X[::-1].copy()[::-1]
    if m == 2: return np.asfortranarray(np.hstack([X, X]))[:, 1:]
    if m == 3: return np.hstack([X, X + 1])[:, :1]
    return X


def case(i, rng, ctx):
    name = rng.choice(['LIN', 'LIN', 'Linear', 'PER', 'PER', 'PER', 'S', 'Sr', 'SI', 'SIr', 'WN', 'C', 'SE'])
    v = gen.positive(rng)
    p = {'variance': v}
    free = rng.random() < .5
    loc = round(rng.choice([rng.uniform(-5, 5), rng.uniform(-100, 100), 0.]), 4)
    far = name in ('LIN', 'S', 'Sr', 'SI', 'SIr') and rng.random() < .12  # years, timestamps
    if far: loc = rng.choice([2023.5, -1e5, 1.6e9, 1e7 + .25, -7e11])
    slope = rng.choice([.5, round(10 ** rng.uniform(-2, 1), 4)])
    width = round(rng.choice([rng.uniform(.01, 10), 10 ** rng.uniform(-3, 3), 10 ** rng.uniform(-5, -2)]), 8)
    with ctx.total('construct', kernel=name):
        if name == 'LIN': k = LinearWithOffset(1, v, loc); p['offset'] = loc
        elif name == 'Linear': k = Linear(1, v)
        elif name == 'PER':
            ls = rng.choice([rng.uniform(.2, 8), 10 ** rng.uniform(-2, 4.5), 3.75 ** -.5 * rng.choice([1 - 1e-9, 1, 1 + 1e-9, 1.001, .999]), 1e4 * rng.choice([.999, 1., 1.001])])
            per = rng.choice([2 * np.pi, round(10 ** rng.uniform(-1, 2), 4)])
            k = PureStdPeriodicKernel(1, v, per, ls); p.update(period=per, lengthscale=ls)
            ctx.ev('PER regime:' + ('limit' if ls > 1e4 else 'direct' if 1 / ls ** 2 < 3.75 else 'scaled'))
        elif name in ('S', 'Sr'): k = SK.SigmoidalKernel(1, name == 'Sr', v, loc, slope, fixed_slope=not free); p.update(location=loc, slope=slope)
        elif name in ('SI', 'SIr'): k = SK.SigmoidalIndicatorKernel(1, name == 'SIr', v, loc, slope, width, fixed_slope=not free); p.update(location=loc, slope=slope, width=width)
        else:
            k = getattr(BK, name)(); k.variance[:] = v
            if name == 'SE': p['lengthscale'] = ls = gen.positive(rng); k.lengthscale[:] = ls
        if rng.random() < .3 and name in ('S', 'Sr', 'SI', 'SIr', 'LIN'):  # parameters set after construction
            nl = round(loc + rng.uniform(-3, 3), 4); a = 'offset' if name == 'LIN' else 'location'
            if rng.random() < .5: getattr(k, a)[:] = nl
            else: setattr(k, a, nl)
            p[a] = nl
    ctx.ev('kernel:' + name); ctx.nontrivial((name, sorted(p.items())))
    X, Z = gen.inputs(rng, np), gen.inputs(rng, np)
    if i % 200 == 13: X, Z = gen.inputs(rng, np, rng.choice([40, 130, 300])), gen.inputs(rng, np, rng.choice([2, 120, 310])); ctx.ev('large inputs')
    if rng.random() < .4 and 'location' in p: X = np.round(X / 10 * max(width, slope) + p['location'] + rng.choice([0, width / 2, width]), 6)
    if far: X, Z = p.get('location', p.get('offset')) + X, p.get('location', p.get('offset')) + Z; ctx.ev('far from 0')
    d = dict(kernel=name, params=p, X=X.ravel()[:60].tolist(), Z=Z.ravel()[:60].tolist())
    if i < 3: ctx.sample(f'{name} {p} at {X.ravel().tolist()}')
    with ctx.total('evaluate', **d): K, Kz, Kd = k.K(layouts(rng, X)), k.K(layouts(rng, X), layouts(rng, Z)), k.Kdiag(layouts(rng, X))
    kt = ('base', 'LIN' if name == 'Linear' else name, p)
    def ok(got, want, a, b=None, diag=False):
        if name in ref.SIGS: # cancellation in the reference for tiny width/slope ratios and in the far tails
            h = p['width'] / (2 * slope) if 'width' in p else 1.
            return np.asarray(got).shape == want.shape and np.all(np.abs(got - want) <= v * (1e-9 + (5e-16 * abs(p['location']) / slope if far and 'width' in p else 0) / (h / (1 + h)) + 1e-13 / (h / (1 + h)) + 1e-9 * np.abs(want / v)))
        return close(got, want, kt, a, b, diag)
    ctx.check(ok(K, ref.kbase(kt[1], p, X), X), f'{name}:K(X)', got=K, want=ref.kbase(kt[1], p, X), **d)
    ctx.check(ok(Kz, ref.kbase(kt[1], p, X, Z), X, Z), f'{name}:K(X,Z)', got=Kz, want=ref.kbase(kt[1], p, X, Z), **d)
    ctx.check(ok(Kd, np.diag(ref.kbase(kt[1], p, X)), X, None, True), f'{name}:Kdiag', got=Kd, want=np.diag(ref.kbase(kt[1], p, X)), **d)
    if name in ('S', 'Sr', 'SI', 'SIr'):
        with ctx.total('phi', **d): phi = np.asarray(k.phi(np.sort(X, 0))).ravel()
        ctx.check(np.all(phi > -1e-9 / 1) and np.all(phi <= 1 + 1e-9) if name in ('S', 'Sr') else np.all(phi <= 1 + 1e-6) , f'{name}:range', phi=phi.tolist(), **d)
        if name == 'S': ctx.check(np.all(np.diff(phi) >= -1e-12), 'S:not-ascending', phi=phi.tolist(), **d)
        if name == 'Sr': ctx.check(np.all(np.diff(phi) <= 1e-12), 'Sr:not-descending', phi=phi.tolist(), **d)
        # landmarks: one half at the location; 1 (0 if reversed) at the centre of the window; symmetric window
        L = np.array([[p['location']]])
        with ctx.total('landmarks', **d):
            if name in ('S', 'Sr'): ctx.check(abs(float(k.phi(L).ravel()[0]) - .5) < 1e-9, f'{name}:half-at-location', **d)
            elif not far:
                c = L + p['width'] / 2; off = rng.uniform(0, 2 * p['width'])
                want = 0. if name == 'SIr' else 1.
                f = lambda x: float(np.asarray(k.phi(x)).ravel()[0])
                ctx.check(abs(f(c) - want) < 1e-6, f'{name}:value-at-centre', got=f(c), **d)
                ctx.check(abs(f(c + off) - f(c - off)) < 1e-6, f'{name}:asymmetric', **d)
    if name == 'PER':
        per = p['period']; Xp = X + per
        with ctx.total('period', **d): Kp = k.K(X, X[:1] + per)
        ctx.check(np.allclose(Kp, K[:, :1], rtol=1e-5, atol=1e-5 * v), 'PER:not-periodic', **d)
        ctx.check(np.allclose(np.diag(K), v, rtol=1e-9), 'PER:variance-at-zero-distance', **d)
    if i % 20 == 0:
        ctx.ev('native vs interpreted')
        A = np.ascontiguousarray(X)
        loc_, s, w, r = float(loc), float(slope), float(width), rng.random() < .5
        pairs = [(SK._phi_S, (loc_, s, r, A)), (SK._phi_SI, (loc_, s, w, r, A))] if hasattr(SK, '_phi_S') and hasattr(SK, '_phi_SI') else []
        for f, a in pairs:
            if hasattr(f, 'py_func') and list(inspect.signature(f.py_func).parameters) == (['location', 'slope', 'reverse', 'X'] if len(a) == 4 else ['location', 'slope', 'width', 'reverse', 'X']):
                with ctx.total('native', **d): x, y = f(*a), f.py_func(*a)
                ctx.check(np.allclose(x, y, rtol=1e-7, atol=1e-9), 'native-differs:' + f.__name__, args=a[:4], **d)
