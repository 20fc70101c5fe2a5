"""Synthetic data."""
import numpy as np
from gpyv import ref, gen
from GPy_ABCD.Util import dataAndPlottingUtil as D

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: generated synthetic data compared pointwise with the piecewise definition and the recorded random stream'
RULE = ('a case generates data from random functions (integer-, float- or mixed-valued), inputs (1-D, 2-D, lists, ranges, unsorted, with values exactly at the change locations), weights, change locations and alignment options, and compares every value; '
        'distinct by arguments; non-trivial = inputs on both sides of a change')
N = {'quick': 12000, 'thorough': 200000}
MIN = {'monitor_checks': 20000, 'plain': 1500, 'change point': 1500, 'change window': 1500, 'aligned': 1500, 'at the boundary': 500, 'noise streams': 3000}
FS = [('2x', lambda x: 2 * x), ('x^2', lambda x: x ** 2), ('sin', lambda x: np.sin(x)), ('one', lambda x: 1), ('int', lambda x: int(x)), ('sign', lambda x: -1 if x < 0 else 1.5), ('mixed', lambda x: 0 if x < 1 else x / 3), ('exp', lambda x: np.exp(-abs(x)))]


def case(i, rng, ctx):
    n = rng.choice([1, 2, 5, 12]) if i % 40 else rng.choice([60, 200, 700])
    xs = rng.choice([lambda: np.arange(n) - n // 2, lambda: np.round(np.random.uniform(-5, 5, n), 3), lambda: np.linspace(-3, 3, n)])()
    a, b = sorted(round(rng.uniform(-4, 4), 2) for _ in range(2))
    if rng.random() < .4: a = float(rng.choice(list(xs)))
    if rng.random() < .3: b = float(rng.choice(list(xs)))
    a, b = min(a, b), max(a, b)
    form = rng.choice(['1d', '2d', 'list'])
    X = {'1d': xs.copy(), '2d': xs.copy()[:, None], 'list': xs.tolist()}[form]
    (n1, f1), (n2, f2) = rng.choice(FS), rng.choice(FS)
    yw, nw = rng.choice([(1, 1), (1, 0), (2.5, 0), (3, .5), (0, 1), (rng.choice([-2, .01, 7, 100.]), rng.choice([.02, 2, 3.5, 40, 1e-4, -.5]))]); line = rng.random() < .5
    kind = rng.choice(['plain', 'change point', 'change window'])
    d = dict(kind=kind, x=xs.tolist(), f1=n1, f2=n2, at=(a, b), Y_weight=yw, noise_weight=nw, line_up=line, form=form)
    ctx.ev(kind); ctx.ev('aligned', line and kind != 'plain')
    if kind != 'plain' and (a in xs.tolist() or b in xs.tolist()): ctx.ev('at the boundary')
    if kind == 'plain': g = lambda x: f1(x)
    elif kind == 'change point': g = lambda x: f1(x) if x < a else f2(x) + (f1(a) - f2(a) if line else 0)
    else:
        sh = f1(a) - f2(a)
        def g(x):
            if x < a: return f1(x)
            if x > b: return f1(x) + ((f2(b) + sh) - f1(b) if line else 0)
            return f2(x) + (sh if line else 0)
    seed = rng.randrange(2 ** 31); keep = np.array(X, copy=True)
    np.random.seed(seed)
    with ctx.total(kind, **d):
        if kind == 'plain': Xo, Yo = D.generate_data(f1, X, yw, nw)
        elif kind == 'change point': Xo, Yo = D.generate_changepoint_data(X, f1, f2, a, yw, nw, line)
        else: Xo, Yo = D.generate_changewindow_data(X, f1, f2, a, b, yw, nw, line)
    ctx.check(np.array_equal(np.array(X), keep), 'inputs-modified', **d)
    ctx.check(np.shape(Xo) == (n, 1) and np.array_equal(np.asarray(Xo)[:, 0], xs), 'returned-inputs', got=np.asarray(Xo).tolist(), **d)
    signal = np.array([float(g(x)) for x in xs])[:, None] * yw
    np.random.seed(seed); noise = np.random.randn(n, 1) * nw
    ctx.ev('noise streams', nw != 0)
    if ctx.check(np.shape(Yo) == (n, 1), 'output-shape', got=np.shape(Yo), **d):
        ctx.check(np.allclose(Yo, signal + noise, rtol=1e-9, atol=1e-9), 'values:' + kind, got=np.asarray(Yo).ravel().tolist(), want=(signal + noise).ravel().tolist(), **d)
    if kind != 'plain':
        with ctx.total('function maker', **d): h = D.cp_f_maker(f1, f2, a, line) if kind == 'change point' else D.cw_f_maker(f1, f2, a, b, line)
        with ctx.total('function', **d): v = h(xs.astype(float) if rng.random() < .5 else xs)
        ctx.check(np.allclose(v, [float(g(x)) for x in xs], rtol=1e-9, atol=1e-9), 'made-function:' + kind, got=np.asarray(v).tolist(), **d)
    if min(xs) < a <= max(xs): ctx.nontrivial(repr(d))
    if i < 3: ctx.sample(d)
