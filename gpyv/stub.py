"""Deterministic stand-in for the numerical fitting of a list of kernels, recording every call of the search."""
import hashlib
from gpyv import ref
from GPy_ABCD.Models.model import GPModel


class Process:
    """the Gaussian process of a prescribed fit: what a score may ask it"""
    def __init__(self, X, Y, ll, k, tag): self.X, self.Y, self.num_data, self.ll, self.k, self.tag = X, Y, len(X), ll, k, tag
    def log_likelihood(self): return self.ll
    def _size_transformed(self): return self.k


class Fitted(GPModel):
    """a model whose fit values are prescribed; everything else is the repository's own class"""
    def __init__(self, X, Y, kex, ll, k, tag):
        super().__init__(X, Y, kex)
        self.model, self.ll_, self.k_, self.tag = Process(X, Y, ll, k, tag), ll, k, tag
    def _ll(self): return self.ll_
    def _n(self): return len(self.X)
    def _k(self): return self.k_
    def _ordered_score_ps(self): return self.model, self.ll_, len(self.X), self.k_


class Fitter:
    """mode 'distinct': scores are distinct per expression; 'ties': many equal scores; 'reward': larger expressions are better, 'penalty': worse"""
    def __init__(self, seed, mode='distinct'):
        self.seed, self.mode, self.calls, self.models = seed, mode, [], []
    def ll(self, t):
        h = int.from_bytes(hashlib.blake2b(f'{self.seed}/{t}'.encode(), digest_size=6).digest(), 'big') / 2 ** 48
        if self.mode == 'ties': return float(int(h * 4))
        return 40 * h + {'reward': 3, 'penalty': -3, 'distinct': 0}[self.mode] * ref.size(t)
    def __call__(self, X, Y, k_exprs, restarts, optimiser, max_retries):
        k_exprs = list(k_exprs)
        ts = [ref.root_form(ref.tup(k)) for k in k_exprs]
        res = [Fitted(X, Y, k, self.ll(t), ref.n_params(ref.norm(t)) + 1, (len(self.calls), j)) for j, (k, t) in enumerate(zip(k_exprs, ts))]
        self.calls.append(dict(X=X, Y=Y, tuples=ts, kexs=k_exprs, restarts=restarts, optimiser=optimiser, max_retries=max_retries, models=list(res)))
        self.models += res
        return res


def value(name, m):
    import numpy as np
    ll, n, k = m.ll_, len(m.X), m.k_
    return {'BIC': -2 * ll + k * np.log(n), 'AIC': 2 * (k - ll), 'AICc': 2 * (k - ll + (k * k + k) / (n - k - 1)), 'plain': -ll, 'k_only': float(k)}[name]
def plain(m, ll, n, k): return -ll
def k_only(m, ll, n, k): return float(k)


def scenario(rng):
    """random arguments of a search"""
    import numpy as np
    from GPy_ABCD import production_rules, production_rules_by_type, start_kernels, BIC, AIC, AICc
    from gpyv import gen
    fast = ('Default', 'Minimal', 'Original_ABCD', 'All')
    all_rules = production_rules['All']
    rules = rng.choice([lambda: production_rules['Minimal'], lambda: production_rules['Default'], lambda: rng.sample(all_rules, rng.randint(1, 3)), lambda: rng.sample(all_rules, rng.randint(1, 2)), lambda: rng.sample(production_rules['Original_ABCD'], 3)])()
    def distinct_starts():
        ts = []
        while len(ts) < rng.randint(1, 4):
            t = gen.canon(rng, 7)
            if t not in ts: ts.append(t)
        return [rng.choice([gen.build, gen.root])(t) for t in ts]
    starts = rng.choice([lambda: start_kernels[rng.choice(list(start_kernels))], lambda: rng.sample(['WN', 'C', 'LIN', 'PER'], rng.randint(1, 3)), distinct_starts, distinct_starts])()
    score = rng.choice([BIC, BIC, AIC, AICc, plain, k_only])
    n = rng.choice([200, 300, 400])
    rounds = rng.choice([0, 1, 1, 2, 2, 3, 3, 5])
    beam = rng.choice([1, 2, 3, [3, 2, 1], [2], [1, 2], [2, 1, 1, 4], [1], [5, 1], [2, 0], [0, 1], 0] + [1, 2, 3] * 2)
    if rounds >= 3: beam = rng.choice([1, [2, 1, 1], [1, 1, 2], 1, [1, 0, 1], [2, 0]])
    return dict(rules=rules, starts=starts, score=score, n=n, rounds=rounds, beam=beam, mode=rng.choice(['distinct', 'ties', 'reward', 'penalty']))
def rule_names(rules): return [f.__name__ for f in rules]
def beams(beam, rounds):
    if isinstance(beam, int): return [beam] * rounds
    return (list(beam) + [beam[-1]] * rounds)[:rounds]
