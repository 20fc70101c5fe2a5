"""One batch of symbolic, compilation, fitting and search scenarios in a process of its own: python -m gpyv.scenarios BATCH COUNT PICKLE w|r
Prints the outcomes as JSON, in forms independent of the order of unordered collections; reads back what the other process pickled."""
import json, pickle, random, sys, warnings
from copy import deepcopy
import numpy as np


def outcome(kind, rng, out, read):
    from gpyv import ref, gen, stub, fitted
    from GPy_ABCD import production_rules, explore_model_space
    from GPy_ABCD.KernelExpansion.grammar import expand
    from GPy_ABCD.Models.model import GPModel
    T = lambda k: ref.to_str(ref.root_form(ref.tup(k)))
    if kind == 'simplify':
        e = gen.build_any(gen.composite(rng), rng)._initialise(); out.append(e)
        if read is not None: assert read == e and e == read and T(read) == T(e) and not ref.integrity(read), f'pickled expression differs: {read!r} {e!r}'
        return T(e)
    if kind == 'expand':
        t = gen.canon(rng, 9); e = gen.root(t); g = rng.choice(sorted(production_rules)); es = expand(e, production_rules[g]); out.append(e)
        if read is not None: assert sorted(map(T, expand(read, production_rules[g]))) == sorted(map(T, es)), f'expansion of the pickled expression differs: {e!r}'
        return [T(e), g, sorted(map(T, es))]
    if kind == 'compile':
        t = gen.canon(rng, 12); e = gen.root(t); k = e.to_kernel(); names = k.parameter_names_flat().tolist()
        rank = {n: j for j, n in enumerate(sorted(names))}
        k[:] = np.array([.3 + .37 * (rank[n] % 11) for n in names]); X = np.linspace(-2, 3, 5)[:, None]
        K = k.K(X); out.append(k)
        if read is not None: assert read.parameter_names_flat().tolist() == names and np.array_equal(read.param_array, k.param_array) and np.array_equal(read.K(X), k.K(X)), f'pickled kernel differs: {e!r}'
        return [T(e), sorted(names), K.tolist()]
    if kind == 'describe':
        from GPy_ABCD.KernelExpansion.kernelOperations import get_param_dict
        t = fitted.expression(rng, 10); e = gen.root(t); k = e.to_kernel(); k[:] = np.array([round(rng.uniform(.3, 4), 2) for _ in range(k.size)])
        e.match_up_fit_parameters(get_param_dict(k), ''); out.append(deepcopy(e)); name = T(e)
        text = sorted(e.get_interpretation().split('\n'))  # consumes e
        if read is not None: assert sorted(read.get_interpretation().split('\n')) == text, f'description of the pickled expression differs: {e!r}'
        return [name, text]
    if kind == 'fit':
        e = gen.root(gen.canon(rng, 6)); X = np.linspace(0, 3, 8)[:, None]; Y = np.sin(2 * X) + .3 * X
        try: m = GPModel(X, Y, e).fit(1, max_iters=8)
        except np.linalg.LinAlgError: out.append(None); return 'not positive definite'
        from GPy_ABCD import BIC
        s = m.compute_utility(BIC); p = m.predict(np.array([[4.]])); out.append(m)
        if read is not None:
            q = read.predict(np.array([[4.]]))
            own = BIC(None, read.model.log_likelihood(), len(X), read.model._size_transformed())
            assert abs(read.cached_utility_function - own) <= 1e-9 * (1 + abs(own)) and abs(own - s) <= 1e-3 * (1 + abs(s)) and T(read.kernel_expression) == T(e) and np.allclose(q['mean'], p['mean']) and np.allclose(q['covariance'], p['covariance']) and read.interpret() == m.interpret(), f'pickled model differs: {e!r}'
            for a in ('restarts', 'cached_utility_function_type'): assert getattr(read, a) == getattr(m, a), f'pickled model has other {a}: {getattr(read, a)!r}'
            assert np.array_equal(read.X, X) and np.array_equal(read.Y, Y) and np.array_equal(read.model.X, X), 'pickled model has other data'
            try: read.fit(max_iters=2)  # its own number of restarts
            except np.linalg.LinAlgError: pass
            assert read.restarts == 1 and T(read.kernel_expression) == T(e), 'pickled model refits otherwise'
        return [T(e), float(s)]
    s = stub.scenario(rng); s['rounds'] = min(s['rounds'], 2)
    f = stub.Fitter('s', rng.choice(['distinct', 'reward', 'penalty'])); X = np.linspace(0, 1, s['n'])[:, None]
    res = explore_model_space(X, X, s['starts'], s['rules'], stub.plain, s['rounds'], s['beam'], 1, f, 'lbfgsb', 1, False)
    out.append(None)
    return [[T(m.kernel_expression) for m in res[0]], [sorted(T(m.kernel_expression) for m in r) for r in res[1]], sorted(map(T, res[2])), [T(m.kernel_expression) for m in res[3]], [T(m.kernel_expression) for m in res[4]],
            [sorted(map(ref.to_str, c['tuples'])) for c in f.calls]]


def main():
    batch, count, path, mode = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    warnings.simplefilter('ignore')
    got = pickle.load(open(path, 'rb')) if mode == 'r' else [None] * count
    res, out = [], []
    for j in range(count):
        rng = random.Random(f'{batch}/{j}'); np.random.seed(j)
        kind = ['simplify', 'expand', 'compile', 'describe', 'search', 'simplify', 'expand', 'fit'][j % 8]
        n = len(out)
        try: o = outcome(kind, rng, out, got[j])
        except Exception as e: o = f'{type(e).__name__}: {e}'
        if len(out) == n: out.append(None)
        res.append([kind, o])
    if mode == 'w':
        with open(path, 'wb') as f: pickle.dump(out, f)
    print('\n@@@' + json.dumps(res))


if __name__ == "__main__": main()
