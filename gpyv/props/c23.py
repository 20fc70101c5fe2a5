"""Continuation of searches."""
import contextlib, io
import numpy as np
from gpyv import ref, gen, stub
from gpyv.snap import snap
from GPy_ABCD import explore_model_space, model_search_rounds

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: continued searches compared with the uninterrupted search over recorded deterministic fits, with identity snapshots of the earlier results'
RULE = ('a case runs a search of a+b rounds at once and as a search of a rounds continued by b (possibly in several continuations, possibly repeated from the same earlier result), compares all five results and the fitting calls, and checks the earlier '
        'results were not modified; distinct by (fitted expressions, split); non-trivial = both parts ran at least one round')
N = {'quick': 1500, 'thorough': 20000}
MIN = {'monitor_checks': 6000, 'continuations': 900, 'repeated continuations': 150, 'several continuations': 100, 'from round 0': 100}


def shot(res):
    """identity of every container and member of a search result, plus the expressions themselves"""
    return [(id(l), [id(x) if not isinstance(x, list) else (id(x), list(map(id, x))) for x in l]) for l in res], [snap(m.kernel_expression) for m in res[0]], [snap(k) for k in res[2]], [(m.cached_utility_function, m.cached_utility_function_type) for m in res[0]]
def view(res):
    """what a search result says, independent of object identity"""
    t = lambda m: ref.root_form(ref.tup(m.kernel_expression))
    return dict(sorted_models=[(t(m), m.cached_utility_function) for m in res[0]], tested_models=[[t(m) for m in l] for l in res[1]], tested_k_exprs=[ref.root_form(ref.tup(k)) for k in res[2]], expanded=[t(m) for m in res[3]], not_expanded=[t(m) for m in res[4]])


def case(i, rng, ctx):
    s = stub.scenario(rng)
    if s['mode'] == 'ties': s['mode'] = 'distinct'
    if s['score'] is stub.k_only: s['score'] = stub.plain
    total = rng.choice([1, 2, 2, 3, 3, 4])
    B = [rng.choice([1, 1, 2, 3] if total < 3 else [1, 1, 2]) for _ in range(total)]
    cuts = sorted(rng.sample(range(total), rng.choice([1, 1, min(2, total)])))   # first part's rounds, then continuation boundaries
    bounds = cuts + [total]
    X = np.linspace(0, 1, s['n'])[:, None]; Y = np.sin(X)
    d = dict(rules=stub.rule_names(s['rules']), starts=repr(s['starts']), score=s['score'].__name__, beams=B, parts=bounds, mode=s['mode'])
    verbose = rng.random() < .3
    seed = f'{ctx.seed}/{i}'
    fa, fb = stub.Fitter(seed, s['mode']), stub.Fitter(seed, s['mode'])
    common = dict(start_kernels=s['starts'], p_rules=s['rules'], utility_function=s['score'], restarts=2, verbose=False)
    with ctx.total('explore_model_space', **d): whole = explore_model_space(X, Y, rounds=total, beam=list(B), model_list_fitter=fa, **common)
    a = bounds[0]
    if a == 0: ctx.ev('from round 0')
    out = io.StringIO()
    with ctx.total('explore_model_space (first part)', **d): res = explore_model_space(X, Y, rounds=a, beam=B[:a] if a else 1, model_list_fitter=fb, **common)
    if len(bounds) > 2: ctx.ev('several continuations')
    for lo, hi in zip(bounds, bounds[1:]):
        before = shot(res); ctx.ev('continuations')
        bm = B[lo:hi] if len(set(B[lo:hi])) > 1 or rng.random() < .5 else B[lo]
        calls = len(fb.calls); rep = rng.random() < .3
        args = (s['rules'], s['score'], hi - lo, bm, 2, 'lbfgsb', 1)
        def go(fitter, r0):
            with ctx.total('model_search_rounds', **d), contextlib.redirect_stdout(out):
                return model_search_rounds(X, Y, *r0, fitter, *args, verbose)
        nxt = go(fb, res)
        ctx.check(shot(res) == before, 'earlier-result-modified', part=(lo, hi), **d)
        ctx.check(len(fb.calls) - calls == hi - lo, 'rounds-run', got=len(fb.calls) - calls, want=hi - lo, **d)
        if rep:
            ctx.ev('repeated continuations')
            v = view(nxt); again = go(stub.Fitter(seed, s['mode']), res)
            ctx.check(view(again) == v, 'continuing-again-differs', first=v, again=view(again), **d)
            ctx.check(shot(res) == before and view(nxt) == v, 'earlier-result-modified-by-second-continuation', **d)
        res = nxt
    v, w = view(res), view(whole)
    for nm in v: ctx.check(v[nm] == w[nm], 'differs-from-uninterrupted:' + nm, continued=v[nm][:6], uninterrupted=w[nm][:6], **d)
    ctx.check([sorted(map(repr, c['tuples'])) for c in fa.calls] == [sorted(map(repr, c['tuples'])) for c in fb.calls], 'fitted-differently', **d)
    if 0 < a < total: ctx.nontrivial((repr(w), tuple(bounds)))
    if i < 3: ctx.sample(f'{d}')
