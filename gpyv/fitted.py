"""Fitted-looking expressions: compile, set distinct random parameters on the compiled kernel (bare or inside a GPRegression model), absorb them."""
import numpy as np
from copy import deepcopy
from gpyv import ref, gen


def repeated(rng):
    """canonical trees with many same-named terms"""
    b = rng.choice(['LIN', 'PER', 'SE'])
    inner = [lambda: ('*', 'LIN', 'PER'), lambda: ('*', 'LIN', 'LIN'), lambda: ('CP', 'LIN', 'PER'), lambda: ('CW', 'SE', 'PER'), lambda: ('*', 'SE', 'PER'), lambda: ('CP', ('+', 'LIN', 'PER'), ('+', 'SE', 'PER')),
             lambda: ('CP', ('*', 'LIN', 'PER'), ('*', 'LIN', 'SE')), lambda: ('CW', ('CP', 'LIN', 'PER'), ('CP', 'PER', 'SE')), lambda: ('CP', 'PER', 'PER'), lambda: ('CW', ('CW', 'LIN', 'LIN'), 'SE')]
    m = rng.random()
    if m < .3: t = ('+',) + (b,) * rng.randint(2, 13)
    elif m < .5: t = ('+',) + tuple(rng.choice(inner)() for _ in range(rng.randint(2, 4)))
    elif m < .7: t = ('*',) + tuple(('+', 'PER', rng.choice(inner)()) for _ in range(rng.randint(2, 3)))
    elif m < .85: t = ('*',) + tuple(rng.choice([lambda: ('CP', 'LIN', 'PER'), lambda: ('CW', 'PER', 'SE'), lambda: ('CP', 'LIN', 'LIN')])() for _ in range(rng.randint(2, 3))) + ('LIN',) * rng.randint(0, 2)
    else: t = (rng.choice(ref.CH), rng.choice(inner)(), rng.choice(inner)())
    return ref.root_form(ref.norm(t))

def expression(rng, maxsize=16):
    if maxsize > 12 and rng.random() < .015: return ref.root_form(ref.norm(gen.extreme(rng, products=False)))
    return repeated(rng) if rng.random() < .3 else gen.canon(rng, maxsize)

def absorbed(rng, ctx, t, wide=False, precise=False, **d):
    """-> kernel tree with values, expression with the absorbed parameters, number of free parameters' values, its compiled kernel"""
    from GPy_ABCD.KernelExpansion.kernelOperations import fit_ker_to_kex_with_params, get_param_dict
    from GPy.models import GPRegression
    with ctx.total('to_kernel', **d):
        e = gen.root(t); k = e.to_kernel()
        how = rng.choice(['bare', 'model', 'model'])
        gen.set_params(k, rng, np, wide)
        if precise: k[:] = k.param_array * np.random.uniform(.97, 1.03, k.size)  # values with all their digits
        if how == 'model': k = GPRegression(np.arange(3.)[:, None], np.arange(3.)[:, None], k).kern
    kt = ref.ktree(k)
    d = dict(d, how=how, params=k.param_array.tolist())
    e2 = deepcopy(e)
    with ctx.total('absorb', **d):
        e2 = fit_ker_to_kex_with_params(k, e2) if how == 'model' else e2.match_up_fit_parameters(get_param_dict(k), '')
    return kt, e2, k, d
