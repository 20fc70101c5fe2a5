"""Freshness of covariances, copies and serialised kernels over histories of parameter changes."""
import copy, pickle
import numpy as np
from gpyv import ref, gen
from gpyv.props.c08 import close

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: after every operation of a random history on live kernels, K/Kdiag are compared with the reference at the parameters the kernel reports'
RULE = ('a case is a history of 8-16 operations (set one parameter by attribute / item / whole vector / optimiser vector, randomize, evaluate, gradient update, copy, deepcopy, '
        'pickle, revisiting earlier inputs and parameter values) on a compiled kernel and its copies; distinct by (tree, case); non-trivial = a composite kernel')
N = {'quick': 1300, 'thorough': 20000}
MIN = {'monitor_checks': 10000, 'stale windows probed': 3000, 'far from 0': 50, 'small steps': 200, **{f'op:{o}': 100 for o in ('attr', 'item', 'vector', 'optimiser', 'randomize', 'copy', 'deepcopy', 'pickle', 'gradient', 'revert')}}


def leafs(k):
    """every kernel object with parameters of its own"""
    res = [k] if [p for p in k.parameters if not hasattr(p, 'Kdiag')] else []
    for p in getattr(k, 'parts', []):
        if hasattr(p, 'Kdiag'): res += leafs(p)
    return res

def value(rng, name):
    return round(rng.uniform(-4, 4), 4) if name in ('location', 'offset') else round(rng.uniform(.3, 4), 4)


def case(i, rng, ctx):
    far = rng.choice([1e3, 1e5, 1e6, -1e6]) if i % 5 == 4 else 0.  # inputs and locations far from 0 (years, timestamps): steps are small relative to the values
    while True:
        t = gen.canon(rng, 11, ext=.01); e = gen.root(t)
        if not (far and 'SE' in ref.leaves(t)): break  # GPy's squared distances cancel far from 0
    with ctx.total('to_kernel', expr=repr(e)): k = e.to_kernel()
    gen.set_params(k, rng, np, wide=False)
    if far:
        ctx.ev('far from 0')
        for p in k.flattened_parameters:
            if p.name in ('location', 'offset'): p[:] = p.values + far
    def newval(rng, name): return value(rng, name) + (far if name in ('location', 'offset') else 0.)
    if len(t) > 2: ctx.nontrivial((t, i))
    pool = [k]; Xs = [gen.inputs(rng, np, kinds=('unif', 'grid')) + far for _ in range(3)]; hist = []; states = [k.param_array.copy()]; kept = []
    def verify(kk, what):
        X = rng.choice(Xs); Z = rng.choice(Xs)
        kt = ref.ktree(kk); d = dict(expr=repr(e), history=hist[-6:], kernel=kt, X=X.ravel().tolist())
        how = rng.randrange(4)
        with ctx.total('evaluate', **d): got = kk.K(X) if how < 2 else kk.K(X, Z) if how == 2 else kk.Kdiag(X)
        want = ref.keval(kt, X) if how < 2 else ref.keval(kt, X, Z) if how == 2 else ref.kdiag(kt, X)
        ctx.ev('stale windows probed')
        ctx.check(close(got, want, kt, X, Z if how == 2 else None, how == 3), f'stale:{what}', got=np.asarray(got).tolist(), want=want.tolist(), **d)
        kept.append((got, np.array(got), how))
        if len(kept) > 8: kept.pop(rng.randrange(len(kept)))
        for a, b, h in kept: ctx.check(np.array_equal(a, b, equal_nan=True), 'returned-array-changed-later', evaluation=['K(X)', 'K(X)', 'K(X,Z)', 'Kdiag(X)'][h], got=np.asarray(a).tolist(), was=b.tolist(), **d)
    for step in range(rng.randint(8, 16)):
        kk = rng.choice(pool)
        verify(kk, 'before')
        others = [(o, o.param_array.copy()) for o in pool if o is not kk]
        op = rng.choice(['attr', 'attr', 'item', 'vector', 'optimiser', 'randomize', 'copy', 'deepcopy', 'pickle', 'gradient', 'revert'])
        d = dict(expr=repr(e), history=hist[-6:], op=op)
        with ctx.total(op, **d):
            if op in ('attr', 'item'):
                o = rng.choice(leafs(kk)); p = rng.choice([p for p in o.parameters if not hasattr(p, 'Kdiag')]); v = newval(rng, p.name)
                if rng.random() < .25: v = ref.f(p) * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2)); ctx.ev('small steps')  # a small relative change counts too
                if op == 'attr': setattr(o, p.name, v)
                else: p[0] = v
                hist.append(f'{op} {p.name}={v}')
                ctx.check(abs(ref.f(getattr(o, p.name)) - v) < 1e-9 * max(1, abs(v)), 'parameter-not-set', **d)
            elif op in ('vector', 'revert'):
                vec = np.array([newval(rng, p.name) for p in kk.flattened_parameters for _ in range(p.size)]) if op == 'vector' else rng.choice(states)
                if rng.random() < .5 or op == 'revert': kk[:] = vec
                else: kk.param_array[:] = vec; kk._trigger_params_changed()
                hist.append(f'{op} {vec.tolist()}'); states.append(vec.copy())
                ctx.check(np.allclose(kk.param_array, vec), 'vector-not-set', **d)
            elif op == 'optimiser':
                x = kk.optimizer_array.copy(); j = rng.randrange(len(x)); x[j] += rng.uniform(-.5, .5); kk.optimizer_array = x; hist.append(f'optimiser[{j}]')
                ctx.check(np.allclose(kk.optimizer_array, x, rtol=1e-6, atol=1e-8), 'optimiser-vector-not-set', **d)
            elif op == 'randomize': kk.randomize(); hist.append('randomize')
            elif op in ('copy', 'deepcopy', 'pickle'):
                c = kk.copy() if op == 'copy' else copy.deepcopy(kk) if op == 'deepcopy' else pickle.loads(pickle.dumps(kk))
                hist.append(op)
                ctx.check(np.array_equal(c.param_array, kk.param_array) and ref.ktree(c) == ref.ktree(kk), f'{op}-differs', got=ref.ktree(c), want=ref.ktree(kk), **d)
                if len(pool) < 4: pool.append(c)
                verify(c, op)
            else:
                X = rng.choice(Xs); before = kk.param_array.copy(); kk.update_gradients_full(np.random.randn(len(X), len(X)), X); hist.append('gradient')
                ctx.check(np.array_equal(before, kk.param_array), 'gradient-update-changed-parameters', **d)
        ctx.ev('op:' + op)
        for o, v in others: ctx.check(np.array_equal(o.param_array, v), f'other-kernel-changed:{op}', expr=repr(e), history=hist[-6:])
        verify(kk, op)
        if others: verify(rng.choice(others)[0], 'other')
    if i < 3: ctx.sample(f'{e}: ' + ' ; '.join(hist))
