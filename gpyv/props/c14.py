"""Absorption of fitted parameters."""
import numpy as np
from gpyv import ref, gen
from gpyv.fitted import expression, absorbed
from gpyv.props.c08 import tol_of

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: conservation of the compiled kernel\'s parameter values and equality of the covariance evaluated from the absorbed parameters with the kernel\'s'
RULE = ('a case compiles a random expression (often with many same-named terms), gives every parameter its own random value, bare or inside a GPRegression model, lets a copy of the expression absorb them, and '
        'compares the multiset of absorbed values with the parameter array and the covariance they define with the kernel\'s; distinct by (tree, values); non-trivial = >= 3 parameters')
N = {'quick': 4000, 'thorough': 150000}
MIN = {'monitor_checks': 5000, 'absorbed': 1300, 'inside models': 800, 'bare kernels': 400, 'values conserved': 15000, 'with change': 600}


def case(i, rng, ctx):
    t = expression(rng)
    d = dict(expr=ref.to_str(t))
    kt, e, k, d = absorbed(rng, ctx, t, precise=rng.random() < .5, **d)
    ctx.ev('absorbed'); ctx.ev('inside models' if d['how'] == 'model' else 'bare kernels')
    if 'CP' in d['expr'] or 'CW' in d['expr']: ctx.ev('with change')
    vals = sorted(float(x) for x in k.param_array)
    got = sorted(ref.absorbed_values(e)); ctx.ev('values conserved', len(got))
    ctx.check(got == vals, 'values-not-conserved', absorbed=got, fitted=vals, **d)
    ctx.check(ref.tup(e) == ref.sort_t(t), 'structure-changed', got=ref.tup(e), **d)
    X, Z = gen.inputs(rng, np, 4), gen.inputs(rng, np, 3)
    for nm, args in (('K(X)', (X, None)), ('K(X,Z)', (X, Z))):
        with ctx.total('K', **d): want = k.K(*args)
        try: a = ref.aeval(e, *args)
        except (KeyError, IndexError) as x: ctx.fail('absorbed-parameters-incomplete', error=repr(x), **d); break
        m, er = tol_of(kt, *args)
        ctx.check(np.all(np.abs(a - want) <= 3 * er + 1e-9 * m + 1e-300), 'absorbed-covariance-differs', at=nm, got=a.tolist(), want=want.tolist(), **d)
    if len(vals) >= 3: ctx.nontrivial((t, tuple(vals)))
    if i < 3: ctx.sample(f'{e} {d["how"]} {vals}')
