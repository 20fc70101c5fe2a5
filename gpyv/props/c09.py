"""Parameter economy."""
import numpy as np
from gpyv import ref, gen
from GPy_ABCD.Models.model import GPModel

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: free parameters of compiled kernels counted and located against the reference parameter count'
RULE = ('a case compiles a random expression; the number of free parameters must equal the reference count (one variance per product of base kernels, location (and width) per '
        'change operator, shape parameters of every base kernel), each linked exactly once, fixed sigmoid slopes excluded; distinct by tree; non-trivial = contains a product or a change operator')
N = {'quick': 3600, 'thorough': 60000}
MIN = {'monitor_checks': 10000, 'products inspected': 500, 'change operators inspected': 800, 'models scored': 60}
PAR = {'WN': {'variance'}, 'C': {'variance'}, 'SE': {'variance', 'lengthscale'}, 'LIN': {'variance', 'offset'}, 'PER': {'variance', 'period', 'lengthscale'}, 'CP': {'location'}, 'CW': {'location', 'width'}}


def inspect(ctx, k, in_product, d):
    """walk the kernel object; names of linked parameters at each node; returns base kernels at this product level with a linked variance"""
    kt = ref.ktree(k); own = {p.name for p in k.parameters if not hasattr(p, 'Kdiag')}
    if kt[0] == 'base':
        want = PAR[kt[1]] - ({'variance'} if in_product else set())
        ctx.check(own - {'variance'} == want - {'variance'}, 'base-kernel-parameters', base=kt[1], own=sorted(own), want=sorted(want), **d)
        if not in_product: ctx.check('variance' in own, 'variance-missing-outside-product', base=kt[1], **d)
        return
    if kt[0] in ref.CH:
        ctx.ev('change operators inspected')
        ctx.check(own == PAR[kt[0]], 'change-parameters', op=kt[0], own=sorted(own), **d)
    else: ctx.check(not own, 'combination-parameters', own=sorted(own), **d)
    if kt[0] == '*':
        ctx.ev('products inspected')
        bs = [p for p in k.parts if hasattr(p, 'Kdiag') and not hasattr(p, 'parts')]
        if bs:
            nv = sum('variance' in {q.name for q in p.parameters} for p in bs)
            ctx.check(nv == 1, 'variances-per-product', linked=nv, **d)
    for p in [p for p in k.parts if hasattr(p, 'Kdiag')]: inspect(ctx, p, kt[0] == '*', d)


def case(i, rng, ctx):
    t = gen.canon(rng, 30)
    e = gen.root(t); d = dict(expr=repr(e))
    with ctx.total('to_kernel', **d): k = e.to_kernel()
    if any(x in ('*', 'CP', 'CW') for x in flat(t)): ctx.nontrivial(t)
    want = ref.n_params(ref.unwrap(t))
    if i < 3: ctx.sample(f'{e}: {want} parameters')
    ctx.check(k.size == want, 'free-parameter-count', got=k.size, want=want, names=k.parameter_names_flat().tolist(), **d)
    names = k.parameter_names_flat().tolist()
    ctx.check(len(set(names)) == len(names) == want, 'parameter-names', names=names, **d)
    inspect(ctx, k, False, d)
    if i % 12 == 0 and ref.size(t) < 20:
        ctx.ev('models scored')
        X = np.linspace(-2, 3, 6)[:, None]
        with ctx.total('fit', **d): m = GPModel(X, np.sin(X), e).fit(0); kk = m.compute_utility(k_of)
        ctx.check(kk == want + 1, 'model-parameter-count', got=kk, want=want + 1, **d)
def k_of(m, ll, n, k): return k
def flat(t):
    if isinstance(t, str): return [t]
    return [t[0]] + [x for c in t[1:] for x in flat(c)]
