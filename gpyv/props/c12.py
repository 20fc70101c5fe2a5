"""Parameter gradients."""
import copy
import numpy as np
from gpyv import ref, gen

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: gradients reported by every kernel and by whole models compared with finite differences of the independent covariance'
RULE = ('a case compiles a random expression at random parameters, feeds a random sensitivity matrix (symmetric for K(X), arbitrary for K(X, Z)) and compares each free '
        'parameter\'s gradient with central differences of the reference covariance; also whole-model log-likelihood gradients; distinct by (tree, case); non-trivial = >= 2 parameters')
N = {'quick': 3000, 'thorough': 40000}
MIN = {'monitor_checks': 6000, 'full gradients': 500, 'cross gradients': 200, 'model gradients': 100, 'large inputs': 12, 'windows with shifted sides': 8, 'param:shift_variance': 8, **{f'param:{p}': 60 for p in ('variance', 'offset', 'lengthscale', 'period', 'location', 'width', 'slope')}}
ASSUMPTIONS = ['change location, width and slope gradients are documented in the code as the forward sigmoid\'s part only: either that part or the full derivative is accepted',
               'the gradient of the periodic lengthscale above 1e4 is documented as a nominal value and not compared',
               'for small lengthscales the published error of the polynomial Bessel approximation is allowed in the periodic lengthscale gradient']


def pairs(k, kt):
    """(param object, kt dict, key) for every free parameter"""
    if kt[0] == 'base': own = kt[2]
    elif kt[0] in ref.CH: own = kt[3]
    else: own = None
    res = []
    if own is not None:
        linked = {p.name for p in k.parameters if not hasattr(p, 'Kdiag')}
        res += [(k, own, a, kt) for a in own if a in linked]
    if kt[0] in '+*': ch = kt[1]
    elif kt[0] in ref.CH: ch = kt[1:3]
    else: ch = []
    sub = [p for p in getattr(k, 'parts', []) if hasattr(p, 'Kdiag')]
    for p, c in zip(sub, ch): res += pairs(p, c)
    return res


def fd(f, own, key, forward_only, is_change):
    """central difference (two step sizes, Richardson) of f by own[key]; for change operators optionally only through the forward sigmoid"""
    x0 = own[key]; h0 = 1e-4 * max(1e-1, abs(x0)) if key != 'location' else 1e-4
    if is_change and forward_only: own['rev'] = {a: b for a, b in own.items() if a != 'rev'}
    def at(x): own[key] = x; r = f(); own[key] = x0; return r
    def c(h): return (at(x0 + h) - at(x0 - h)) / (2 * h)
    a, b = c(h0), c(h0 / 2)
    own.pop('rev', None)
    return (4 * b - a) / 3, abs(a - b)


def swapped(kt, node, new):
    """the tree with that very node (by identity) replaced"""
    if kt is node: return new
    if kt[0] in '+*': return (kt[0], [swapped(c, node, new) for c in kt[1]])
    if kt[0] in ref.CH: return (kt[0], swapped(kt[1], node, new), swapped(kt[2], node, new), *kt[3:])
    return kt


def bessel_slack(kt, node, X, X2, G):
    """what the published error (< 2.2e-7 / sqrt(x)) of the polynomial Bessel functions used for small lengthscales (Abramowitz & Stegun 9.8.2, 9.8.4) can put into
    the lengthscale gradient: 2 V / l^3 times that, through whatever multiplies this node in the tree, weighted by the sensitivities G"""
    p = node[2]; x = p['lengthscale'] ** -2
    if x < 3.75: return 0.
    outer = ref.keval(swapped(kt, node, ('base', 'C', dict(variance=1.))), X, X2) - ref.keval(swapped(kt, node, ('base', 'C', dict(variance=0.))), X, X2)
    return 1.2 * 4.4e-7 / np.sqrt(x) * 2 * p['variance'] * x / p['lengthscale'] * float(np.abs(G * outer).sum())


def case(i, rng, ctx):
    mode = rng.choice(['full', 'full', 'cross', 'model']) if i % 3 else 'full'
    t = gen.canon(rng, 11, ext=.01); e = gen.root(t); d = dict(expr=repr(e), mode=mode)
    free = rng.random() < .3
    with ctx.total('to_kernel', **d): k = e.to_kernel()
    if i % 4 == 0:  # single kernels, including those with free slopes
        from GPy_ABCD.Kernels import changeOperators as C, sigmoidalKernels as S, baseKernels as B, changeWindowShiftedSides as W
        mk = [lambda: S.SigmoidalKernel(1, rng.random() < .5), lambda: S.SigmoidalIndicatorKernel(1, rng.random() < .5), lambda: C.ChangePointKernel(B.LIN(), B.PER()),
              lambda: C.ChangeWindowKernel(B.PER(), B.SE()), lambda: C.ChangeWindowKernel(B.LIN(), C.ChangePointKernel(B.SE(), B.C())), lambda: B.PER(), lambda: B.LIN(), lambda: B.PER() * B.SE(),
              lambda: W.ChangeWindowKernelShiftedSides(B.LIN(), B.PER(), fixed_slope=rng.random() < .5), lambda: W.ChangeWindowKernelShiftedSides(C.ChangePointKernel(B.PER(), B.C()), B.SE()) + B.LIN(),
              lambda: S.SigmoidalKernel(1, rng.random() < .5, fixed_slope=True), lambda: S.SigmoidalIndicatorKernel(1, rng.random() < .5, fixed_slope=True)]
        with ctx.total('construct', **d): k = rng.choice(mk)()
        d['expr'] = type(k).__name__ + ' ' + str(getattr(k, 'reverse', ''))
    if k.size > 20: return
    ctx.ev('windows with shifted sides', 'shift_variance' in str(k.parameter_names_flat()))
    gen.set_params(k, rng, np, wide=False, loc=3.)
    sig = type(k).__name__ in ('SigmoidalKernel', 'SigmoidalIndicatorKernel')
    if sig:
        nm = ('S' if 'Indicator' not in type(k).__name__ else 'SI') + ('r' if k.reverse else '')
        own = {a: ref.f(getattr(k, a)) for a in ('variance', 'location', 'slope', 'width') if hasattr(k, a)}
        kt = ('base', nm, own)
    else: kt = ref.ktree(k)
    n = rng.choice([2, 4, 6]) if i % 40 != 7 or mode == 'model' else rng.choice([50, 130]); ctx.ev('large inputs', n > 40)
    # inputs away from the kinks of the sigmoids, where one-sided derivatives differ in second order only, keep finite differences accurate
    X = np.round(np.random.uniform(-4, 4, (n, 1)), 5); Z = np.round(np.random.uniform(-4, 4, (rng.choice([1, 3, 5] if n < 40 else [3, 120]), 1)), 5)
    if mode == 'cross' and rng.random() < .3: Z = X.copy()
    if k.size >= 2: ctx.nontrivial((t, i))
    d.update(kernel=kt, X=X.ravel()[:40].tolist(), Z=Z.ravel()[:40].tolist())
    if i < 3: ctx.sample(f'{d["expr"]} {mode}')
    if mode == 'model' and not sig:
        from GPy.models import GPRegression
        Y = np.random.randn(n, 1)
        with ctx.total('model', **d):
            m = GPRegression(X, Y, k); noise = round(rng.uniform(.2, 1.5), 4); m.likelihood.variance[:] = noise
            got_noise = float(m.likelihood.variance.gradient[0])
            k = m.kern; kt = ref.ktree(k)
        if np.linalg.cond(ref.keval(kt, X) + noise * np.eye(n)) > 1e7: return  # finite differences of an ill-conditioned likelihood decide nothing
        f = lambda: ref.gp(kt, noise, X, Y)[0]
        ctx.ev('model gradients')
        h = 1e-4
        dns = [(ref.gp(kt, noise + s, X, Y)[0] - ref.gp(kt, noise - s, X, Y)[0]) / (2 * s) for s in (h, h / 2)]
        dn = (4 * dns[1] - dns[0]) / 3
        ctx.check(abs(dn - got_noise) <= 1e-4 * max(1, abs(dn)) + 30 * abs(dns[0] - dns[1]), 'noise-gradient', got=got_noise, want=dns, **d)
        scale0 = 1.
        def sens():
            Ki = np.linalg.inv(ref.keval(kt, X) + noise * np.eye(n)); a = Ki @ Y
            return None, .5 * (a @ a.T - Ki)
    elif mode == 'cross':
        G = np.random.randn(n, len(Z)); ctx.ev('cross gradients')
        with ctx.total('update_gradients_full', **d): k.update_gradients_full(G, X, Z)
        f = lambda: float((G * ref.keval(kt, X, Z)).sum()); scale0 = float(np.abs(G * ref.keval(kt, X, Z)).sum()); sens = lambda: (Z, G)
    else:
        G = np.random.randn(n, n); G = G + G.T; ctx.ev('full gradients')
        with ctx.total('update_gradients_full', **d): k.update_gradients_full(G, X)
        f = lambda: float((G * ref.keval(kt, X)).sum()); scale0 = float(np.abs(G * ref.keval(kt, X)).sum()); sens = lambda: (None, G)
    for obj, own, key, node in pairs(k, kt):
        if node[0] == 'base' and node[1] == 'PER' and own['lengthscale'] > 1e4 and key == 'lengthscale': continue
        got = float(np.asarray(getattr(obj, key).gradient).reshape(-1)[0])
        ch = node[0] in ref.CH
        cands = [fd(f, own, key, False, ch)] + ([fd(f, own, key, True, True)] if ch else [])
        ctx.ev('param:' + key)
        slack = bessel_slack(kt, node, X, *sens()) if node[0] == 'base' and node[1] == 'PER' and key == 'lengthscale' else 0.
        ok = any(abs(got - w) <= slack + 3e-4 * max(abs(w), 1e-2 * scale0 / max(abs(own[key]), .1), 1e-6) + 30 * err for w, err in cands)
        ctx.check(ok, f'gradient:{key}:{node[0] if ch else node[1]}', got=got, want=[c[0] for c in cands], err=[c[1] for c in cands], node=node[:1] + (own,), **d)
