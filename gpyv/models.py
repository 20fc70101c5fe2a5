"""Small data sets and fitted models for the model-level monitors."""
import numpy as np
from gpyv import ref, gen


def data(rng, n=None, large=0.):
    """small data by default, with the given probability large ones"""
    n = n or (rng.choice([60, 120, 260, 420]) if rng.random() < large else rng.choice([4, 6, 8, 12]))
    X = np.round(rng.choice([lambda: np.random.uniform(-4, 4, n), lambda: np.linspace(0, 6, n), lambda: np.sort(np.random.uniform(-3, 3, n)), lambda: 10 + np.random.uniform(0, 5, n)])(), 5)
    if rng.random() < .3: X[rng.randrange(n)] = X[rng.randrange(n)]  # repeated inputs
    if rng.random() < .1: X[:] = X[rng.randrange(n)] + np.round(np.linspace(0, 1, n))
    f = rng.choice([np.sin, lambda x: .5 * x, lambda x: np.where(x > x.mean(), x, np.cos(2 * x)), lambda x: x ** 2 / 5])
    Y = f(X) + rng.choice([.05, .3]) * np.random.randn(n)
    Y = np.round(Y, 6)
    if rng.random() < .12: Y = Y * rng.choice([1e-7, 1e-3, 1e3]) + rng.choice([0, 0, 1e-4, 50., 3e3])  # other units and offsets
    return X[:, None], Y[:, None]

def unoptimised(rng, ctx, m, **d):
    """fit without restarts, then random parameters: exercises every parameter region without paying for optimisation"""
    with ctx.total('fit', **d): m.fit(0)
    # keep the covariance well-conditioned so that independent arithmetic can decide
    for _ in range(20):
        try:
            with m_updates(m): pass
            gen_set(m, rng)
            return True
        except np.linalg.LinAlgError: continue
    return False
class m_updates:
    def __init__(self, m): self.m = m
    def __enter__(self): return self
    def __exit__(self, *a): return False
def gen_set(m, rng):
    k = m.model.kern
    vals = []
    for p in k.flattened_parameters:
        for i in range(p.size):
            n = p.name
            if n in ('location', 'offset'): v = rng.uniform(-4, 4)
            elif n == 'width': v = rng.uniform(.3, 5)
            elif n in ('period', 'lengthscale'): v = rng.uniform(.4, 5)
            elif n == 'slope': v = rng.uniform(.1, 2)
            else: v = rng.uniform(.1, 2.5)
            vals.append(round(v, 4))
    full = np.array(vals + [round(rng.uniform(.1, 1.), 4)])
    assert full.size == m.model.param_array.size
    m.model[:] = full
def noise(m): return float(m.model.likelihood.variance[0])
def cond(kt, nz, X):
    if not tame(kt): return np.inf
    K = ref.keval(kt, X) + nz * np.eye(len(X))
    if not np.isfinite(K).all(): return np.inf
    return np.linalg.cond(K)
def has_per(kt): return 'PER' in repr(kt)

def optimised(rng, ctx, m, restarts=None, **kw):
    """a real fit; -> False when the numerical optimisation itself failed"""
    try: m.fit(restarts or 1, **kw); return True
    except np.linalg.LinAlgError: return False

def tame(kt):
    """parameters in the range where independent double-precision arithmetic decides"""
    import re
    ps = re.findall(r"'(\w+)': ([^,}]+)", repr(kt))
    for n, v in ps:
        v = float(v)
        if not np.isfinite(v) or abs(v) > 1e5 or (n in ('width', 'lengthscale', 'period', 'slope') and v < 1e-2): return False
    return True
