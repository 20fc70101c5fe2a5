"""Kernel classes constructed directly by users."""
import numpy as np
import GPy
from gpyv import ref, gen
from GPy_ABCD.Kernels import linearKernel as L, linearOffsetKernel as LO, periodicKernel as PK, sigmoidalKernels as S, changeOperators as CO, changeWindowThreePart as T, changeWindowShiftedSides as SS

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: kernel classes constructed directly with arbitrary arguments (dimensions, input columns, initial values, names, slopes, arbitrary GPy sides) compared with closed forms at construction and through changes of parameters'
RULE = ('a case constructs one kernel class with random arguments, checks its name and parameters, evaluates it, changes its parameters by a random route, evaluates it again and feeds it sensitivities; '
        'distinct by class and arguments; all are non-trivial')
N = {'quick': 2400, 'thorough': 60000}
MIN = {'monitor_checks': 10000, 'linear:ARD': 80, 'linear:one variance': 80, 'columns': 150, 'side gradients': 250, 'input gradients': 150, 'shift': 60, **{f'class:{c}': 60 for c in ('ChangePointKernel', 'ChangeWindowKernel', 'ChangeWindowKernelIndependent', 'ChangeWindowKernelShiftedSides')}}
ASSUMPTIONS = ['gradients of change locations, widths and slopes: the forward sigmoid\'s part or the full derivative (as for C12)',
               'not claimed: the experimental alternating and corrected-width windows, gradients of the three-part window (it rebuilds its bounds meanwhile) and gradients along the diagonal of change operators']


def val(x): return float(np.asarray(x).reshape(-1)[0])
def near(a, b, t=1e-8): a, b = np.asarray(a, float), np.asarray(b, float); return a.shape == b.shape and bool(np.all(np.abs(a - b) <= t * (1e-6 + np.maximum(np.abs(a), np.abs(b)).max(initial=0.))))

def route(k, rng):
    """new values for all free parameters, by one of the public routes"""
    r = rng.randrange(4)
    if r == 0: gen.set_params(k, rng, np, wide=False)
    elif r == 1: k.randomize(); [p.__setitem__(slice(None), np.clip(np.abs(p.values), .05, 5)) for p in k.flattened_parameters if p.name in ('width', 'slope', 'period', 'lengthscale')]
    elif r == 2: k.optimizer_array = k.optimizer_array + np.random.uniform(-.5, .5, k.size)
    else:
        for p in k.flattened_parameters:
            for j in range(p.size): p[j] = abs(p[j]) * rng.uniform(.5, 2) + .05

def plain_sides(rng):
    G = GPy.kern; u = lambda: round(rng.uniform(.3, 3), 3)
    one = lambda: rng.choice([lambda: G.RBF(1, u(), u()), lambda: G.Matern32(1, u(), u()), lambda: G.Bias(1, u()), lambda: G.Linear(1, u()), lambda: G.White(1, u()), lambda: LO.LinearWithOffset(1, u(), u() - 1), lambda: PK.PureStdPeriodicKernel(1, u(), u(), u())])()
    r = rng.random()
    return one() if r < .6 else one() + one() if r < .8 else one() * one()


def linear(i, rng, ctx):
    D = rng.randint(1, 4); ARD = rng.random() < .5; cols = D + rng.choice([0, 0, 1, 2]); ad = None
    if cols > D or rng.random() < .3: ad = rng.sample(range(cols), D); ctx.ev('columns')
    v = rng.choice([None, np.round(np.random.uniform(.1, 4, D), 4) if ARD else gen.positive(rng)])
    ctx.ev('linear:ARD' if ARD else 'linear:one variance')
    X, Z = np.round(np.random.randn(rng.randint(1, 6), cols) * 2, 4), np.round(np.random.randn(rng.randint(1, 5), cols), 4)
    d = dict(D=D, ARD=ARD, active_dims=ad, variance=v, X=X.tolist(), Z=Z.tolist())
    with ctx.total('linear', **d):
        k = L.Linear(D, v, ARD, ad, 'lin'); sl = ad if ad is not None else list(range(D))
        x, z = X[:, sl], Z[:, sl]; w = (np.ones(D if ARD else 1) if v is None else np.ravel(v)).astype(float)
        ctx.check(k.name == 'lin' and near(k.variance.values, w), 'linear:parameters', got=k.variance.values, **d)
        for step in range(2):
            if step: route(k, rng); w = k.variance.values.copy()
            W = np.diag(w * np.ones(D)); d['w'] = w.tolist()
            ctx.check(near(k.K(X), x @ W @ x.T), 'linear:K(X)', got=k.K(X), **d); ctx.check(near(k.K(X, Z), x @ W @ z.T), 'linear:K(X,Z)', got=k.K(X, Z), **d)
            ctx.check(near(k.Kdiag(X), np.diag(x @ W @ x.T)), 'linear:Kdiag', got=k.Kdiag(X), **d)
            G, Gz, g = np.random.randn(len(X), len(X)), np.random.randn(len(X), len(Z)), np.random.randn(len(X))
            by = lambda per: per if ARD else [sum(per)]
            k.update_gradients_full(G.copy(), X); ctx.check(near(k.variance.gradient, by([np.sum(G * np.outer(x[:, j], x[:, j])) for j in range(D)]), 1e-7), 'linear:gradient(X)', got=k.variance.gradient, **d)
            k.update_gradients_full(Gz, X, Z); ctx.check(near(k.variance.gradient, by([np.sum(Gz * np.outer(x[:, j], z[:, j])) for j in range(D)]), 1e-7), 'linear:gradient(X,Z)', got=k.variance.gradient, **d)
            k.update_gradients_diag(g, X); ctx.check(near(k.variance.gradient, by([np.sum(g * x[:, j] ** 2) for j in range(D)]), 1e-7), 'linear:gradient-diag', got=k.variance.gradient, **d)
            def full(a): r = np.zeros_like(X); r[:, sl] = a; return r
            ctx.ev('input gradients')
            ctx.check(near(k.gradients_X(G.copy(), X), full((G + G.T) @ x @ W)), 'linear:gradients_X', got=k.gradients_X(G.copy(), X), **d)
            ctx.check(near(k.gradients_X(Gz, X, Z), full(Gz @ z @ W)), 'linear:gradients_X(X,Z)', got=k.gradients_X(Gz, X, Z), **d)
            ctx.check(near(k.gradients_X_diag(g, X), full(2 * g[:, None] * x @ W)), 'linear:gradients_X_diag', got=k.gradients_X_diag(g, X), **d)
            ctx.check(near(k.input_sensitivity(), w * np.ones(D)), 'linear:sensitivity', got=k.input_sensitivity(), **d)
    ctx.nontrivial(('linear', D, ARD, ad, str(v)))


def single(i, rng, ctx):
    """one-dimensional kernels on a chosen input column"""
    name = rng.choice(['LIN', 'PER', 'S', 'Sr', 'SI', 'SIr']); u = lambda: round(rng.uniform(.2, 4), 3); fs = rng.random() < .5
    cols = rng.randint(1, 3); ad = None if cols == 1 and rng.random() < .5 else [rng.randrange(cols)]; c = ad[0] if ad else 0
    p = {'variance': u()}
    if name == 'LIN': p['offset'] = u() - 2
    elif name == 'PER': p.update(period=u(), lengthscale=u())
    else: p.update(location=u() - 2, slope=u()); p.update({'width': u()} if 'I' in name else {})
    X, Z = np.round(np.random.randn(rng.randint(1, 6), cols) * 3, 4), np.round(np.random.randn(rng.randint(1, 5), cols) * 2, 4)
    if cols > 1: ctx.ev('columns')
    d = dict(kernel=name, params=dict(p), active_dims=ad, X=X.tolist(), Z=Z.tolist(), fixed_slope=fs)
    with ctx.total('single', **d):
        if name == 'LIN': k = LO.LinearWithOffset(1, active_dims=ad, name='given', **p)
        elif name == 'PER': k = PK.PureStdPeriodicKernel(1, active_dims=ad, name='given', **p)
        else: k = (S.SigmoidalIndicatorKernel if 'I' in name else S.SigmoidalKernel)(1, name.endswith('r'), active_dims=ad, name='given', fixed_slope=fs, **p)
        free = [a for a in p if not (fs and a == 'slope' and name in ref.SIGS)]
        ctx.check(k.name == 'given' and sorted(x.name for x in k.parameters) == sorted(free) and all(near(val(getattr(k, a)), p[a]) for a in p), f'{name}:parameters', got={a: val(getattr(k, a)) for a in p}, **d)
        for step in range(2):
            if step: route(k, rng); p = {a: val(getattr(k, a)) for a in p}; d['params'] = dict(p)
            x, z = X[:, [c]], Z[:, [c]]
            ctx.check(near(k.K(X), ref.kbase(name, p, x), 2e-6), f'{name}:K(X)', got=k.K(X), **d); ctx.check(near(k.K(X, Z), ref.kbase(name, p, x, z), 2e-6), f'{name}:K(X,Z)', got=k.K(X, Z), **d)
            ctx.check(near(k.Kdiag(X), np.diag(ref.kbase(name, p, x)), 2e-6), f'{name}:Kdiag', got=k.Kdiag(X), **d)
    ctx.nontrivial((name, sorted(p.items()), ad))


def blend(cls, p, x, z, A, B, third, which='both'):
    """covariance of a change operator with parameters p: A, B, third are the sides' covariances"""
    if z is None: z = x
    def s(n, q): return ref.sigma(n, q, x) * ref.sigma(n, q, z).T
    q = {a: p[a] for a in ('location', 'slope', 'width') if a in p}; fix = p.get('rev') or q
    after = lambda w: {'location': w['location'] + w['width'], 'slope': w['slope']}
    if cls is CO.ChangePointKernel: return A * s('Sr', fix) + B * s('S', q)
    if cls is CO.ChangeWindowKernel: return A * s('SIr', fix) + B * s('SI', q)
    C = third if cls is T.ChangeWindowKernelIndependent else A + p['shift_variance']
    return A * s('Sr', fix) + B * s('SI', q) + C * s('S', after(fix))


def change(i, rng, ctx):
    cls = rng.choice([CO.ChangePointKernel, CO.ChangeWindowKernel, CO.ChangeWindowKernel, T.ChangeWindowKernelIndependent, SS.ChangeWindowKernelShiftedSides]); nm = cls.__name__; ctx.ev('class:' + nm)
    u = lambda: round(rng.uniform(.1, 3), 3); fs = rng.random() < .5; W = cls is not CO.ChangePointKernel; indep, shifted = cls is T.ChangeWindowKernelIndependent, cls is SS.ChangeWindowKernelShiftedSides
    p = dict(location=round(rng.uniform(-4, 4), 3), slope=u()); p.update({'width': u()} if W else {})
    given = {a: v for a, v in p.items() if rng.random() < .8}; p = {**dict(location=0., slope=.5), **({'width': 1.} if W else {}), **given}
    X = np.round(np.random.uniform(-5, 5, (rng.randint(1, 6), 1)), 4); Z = np.round(np.random.uniform(-5, 5, (rng.randint(1, 5), 1)), 4)
    d = dict(cls=nm, given=given, fixed_slope=fs, X=X.ravel().tolist(), Z=Z.ravel().tolist())
    with ctx.total('change operator', **d):
        a, b = plain_sides(rng), plain_sides(rng)
        if rng.random() < .2: b = CO.ChangePointKernel(b, plain_sides(rng), location=u(), slope=u(), fixed_slope=rng.random() < .5)
        c = plain_sides(rng) if indep and rng.random() < .5 else None
        if rng.random() < .15: b = a  # the same object on both sides
        sides = [a, b] + ([c] if c is not None else [])
        before = [s.param_array.copy() for s in sides]; d['sides'] = [s.name for s in sides]
        k = cls(a, b, **({'third': c} if c is not None else {}), name='given', fixed_slope=fs, **given)
        own = [x.name for x in k.parameters if not hasattr(x, 'Kdiag')]
        ctx.check(k.name == 'given' and sorted(own) == sorted([x for x in p if not (fs and x == 'slope')] + ['shift_variance'] * shifted) and all(near(val(getattr(k, x)), p[x]) for x in p), nm + ':parameters', got=(own, {x: val(getattr(k, x)) for x in p}), **d)
        parts = [x for x in k.parameters if hasattr(x, 'Kdiag')]
        ctx.check(len(parts) == (3 if indep else 2) and all(near(x.param_array, y) for x, y in zip(parts, before)) and k.size == sum(x.size for x in parts) + len(own), nm + ':sides', got=[x.name for x in parts], **d)
        for step in range(3):
            if step == 1: route(k, rng)
            if step == 2:  # the given kernels are not those of the operator
                for s in sides: s.param_array[:] = 7.5; s.trigger_update()
                before = [s.param_array.copy() for s in sides]
            p = {x: val(getattr(k, x)) for x in p}
            if shifted: p['shift_variance'] = val(k.shift_variance); ctx.ev('shift')
            d['params'] = dict(p)
            fresh = [x.copy() for x in parts]
            A, B = fresh[0].K(X), fresh[1].K(X); C = fresh[2].K(X) if indep else None
            ctx.check(near(k.K(X), blend(cls, p, X, None, A, B, C), 1e-7), nm + ':K(X)', got=k.K(X), **d)
            ctx.check(near(k.Kdiag(X), np.diag(blend(cls, p, X, None, A, B, C)), 1e-7), nm + ':Kdiag', got=k.Kdiag(X), **d)
            Az, Bz = fresh[0].K(X, Z), fresh[1].K(X, Z); Cz = fresh[2].K(X, Z) if indep else None
            ctx.check(near(k.K(X, Z), blend(cls, p, X, Z, Az, Bz, Cz), 1e-7), nm + ':K(X,Z)', got=k.K(X, Z), **d)
            ctx.check(all(np.array_equal(s.param_array, y) for s, y in zip(sides, before)), nm + ':given-sides-changed', **d)
        if not indep:
            cross = rng.random() < .4; G = np.random.randn(len(X), len(Z) if cross else len(X)); G = G if cross else G + G.T
            zz = Z if cross else None; a0, b0 = (Az, Bz) if cross else (A, B)
            k.update_gradients_full(G, X, zz)
            zero = np.zeros_like(G); one = zero + 1; ctx.ev('side gradients')
            for x, f, e in ((parts[0], fresh[0], blend(cls, {**p, 'shift_variance': 0.}, X, zz, one, zero, None)), (parts[1], fresh[1], blend(cls, {**p, 'shift_variance': 0.}, X, zz, zero, one, None))):
                f.update_gradients_full(G * e, X, zz)
                ctx.check(near(x.gradient, f.gradient, 1e-6), nm + ':side-gradient', got=x.gradient, want=f.gradient, **d)
            fun = lambda q: float((G * blend(cls, q, X, zz, a0, b0, None)).sum())
            for key in own:
                def num(full, h):
                    def at(v): q = {**p, key: v}; return fun(q if full else {**q, 'rev': p})
                    return (at(p[key] + h) - at(p[key] - h)) / (2 * h)
                c1 = [((4 * num(fl, 5e-5) - num(fl, 1e-4)) / 3, abs(num(fl, 5e-5) - num(fl, 1e-4))) for fl in (True, False)]
                got = val(getattr(k, key).gradient); sc = float(np.abs(G * blend(cls, p, X, zz, np.abs(a0), np.abs(b0), None)).sum())
                ctx.check(any(abs(got - w) <= 3e-4 * max(abs(w), 1e-2 * sc / max(abs(p[key]), .1), 1e-6) + 30 * e for w, e in c1), f'{nm}:gradient:{key}', got=got, want=c1, **d)
    ctx.nontrivial((nm, sorted(p.items()), tuple(d['sides'])))


def case(i, rng, ctx):
    f = rng.choice([linear, single, change, change]); f(i, rng, ctx)
    if i < 3: ctx.sample(f.__name__)
