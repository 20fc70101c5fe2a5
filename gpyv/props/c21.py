"""Search bookkeeping."""
import contextlib, io, re
import numpy as np
from gpyv import ref, gen, stub
from GPy_ABCD import explore_model_space

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: complete searches driven with recorded deterministic fits; the returned lists are checked against the recorded fitting calls (conservation, order, partition, scores) and the progress report against the results'
RULE = ('a case is one search with random rules, starting kernels, scoring function, beam, rounds, options and fit values (distinct, tied, rewarding or penalising size); every fitted model must appear exactly once in each accounting; '
        'distinct by (fitted expressions, arguments); non-trivial = at least one expansion round that fitted something')
N = {'quick': 3000, 'thorough': 40000}
MIN = {'monitor_checks': 6000, 'models accounted': 5000, 'rounds': 200, 'with ties': 60, 'reports checked': 100}


def ids(ms): return sorted(map(id, ms))
def asc(xs): return all(a <= b for a, b in zip(xs, xs[1:]))


def case(i, rng, ctx):
    s = stub.scenario(rng); R, B = s['rounds'], stub.beams(s['beam'], s['rounds'])
    X = np.linspace(0, 1, s['n'])[:, None]; Y = np.sin(X)
    f = stub.Fitter(f'{ctx.seed}/{i}', s['mode'])
    restarts, opt, retries = rng.randint(0, 9), rng.choice(['lbfgsb', 'scg', 'simplex']), rng.randint(0, 4)
    verbose = rng.random() < .5
    d = dict(rules=stub.rule_names(s['rules']), starts=repr(s['starts']), score=s['score'].__name__, beam=s['beam'], rounds=R, mode=s['mode'])
    out = io.StringIO()
    with ctx.total('explore_model_space', **d), contextlib.redirect_stdout(out):
        res = explore_model_space(X, Y, start_kernels=s['starts'], p_rules=s['rules'], utility_function=s['score'], rounds=R, beam=s['beam'], restarts=restarts, model_list_fitter=f, optimiser=opt, max_retries=retries, verbose=verbose)
    if not ctx.check(len(res) == 5, 'result-arity', got=len(res), **d): return
    sorted_models, tested, k_exprs, expanded, rest = res
    ctx.ev('models accounted', len(f.models)); ctx.ev('rounds', R); ctx.ev('with ties', s['mode'] == 'ties')
    if R and len(f.calls) > 1 and f.calls[1]['models']: ctx.nontrivial((tuple(map(tuple, (c['tuples'] for c in f.calls))), d['score'], repr(s['beam'])))
    if i < 3: ctx.sample(f'{d} fitted {[len(c["models"]) for c in f.calls]}')
    # calls
    ctx.check(len(f.calls) == R + 1, 'number-of-fitting-calls', got=len(f.calls), want=R + 1, **d)
    for c in f.calls:
        ctx.check(np.array_equal(c['X'], X) and np.array_equal(c['Y'], Y), 'data-passed-to-fitter', **d)
        ctx.check((c['restarts'], c['optimiser'], c['max_retries']) == (restarts, opt, retries), 'options-passed-to-fitter', got=(c['restarts'], c['optimiser'], c['max_retries']), want=(restarts, opt, retries), **d)
    # conservation
    ctx.check(ids(sorted_models) == ids(f.models), 'sorted-models-not-all-fitted', got=len(sorted_models), want=len(f.models), **d)
    ctx.check(len(tested) == R + 1 and all(ids(a) == ids(c['models']) for a, c in zip(tested, f.calls)), 'tested-models-not-per-round', got=[len(a) for a in tested], want=[len(c['models']) for c in f.calls], **d)
    ctx.check(ids(expanded + rest) == ids(f.models), 'expanded-and-rest-no-partition', expanded=len(expanded), rest=len(rest), fitted=len(f.models), **d)
    ts = [t for c in f.calls for t in c['tuples']]
    ctx.check(sorted(map(repr, (ref.root_form(ref.tup(k)) for k in k_exprs))) == sorted(map(repr, ts)), 'tested-expressions', got=len(k_exprs), want=len(ts), **d)
    per_round = len(f.calls[0]['tuples'])
    ctx.check(sorted(map(repr, (ref.root_form(ref.tup(k)) for k in k_exprs[:per_round]))) == sorted(map(repr, f.calls[0]['tuples'])), 'tested-expressions-order', **d)
    # scores and order
    name = s['score'].__name__; bad = 0
    for m in f.models:
        w = stub.value(name, m)
        ok = m.cached_utility_function is not None and abs(m.cached_utility_function - w) <= 1e-9 * (1 + abs(w)) and m.cached_utility_function_type == name
        if not ok: bad += 1
    ctx.check(bad == 0, 'scores-of-models', wrong=bad, **d)
    if not bad:
        for nm, l in [('sorted', sorted_models), ('rest', rest)] + [(f'tested', a) for a in tested]:
            ctx.check(asc([m.cached_utility_function for m in l]), 'not-in-order:' + nm, got=[m.cached_utility_function for m in l][:8], **d)
    # expanded counts
    total, unexp = 0, len(f.calls[0]['models'])
    for r, b in enumerate(B):
        e = min(b, unexp); total += e
        unexp = unexp - e + (len(f.calls[r + 1]['models']) if r + 1 < len(f.calls) else 0)
    ctx.check(len(expanded) == total, 'number-expanded', got=len(expanded), want=total, **d)
    # report
    if verbose and len(f.calls) == R + 1:
        txt = out.getvalue(); ctx.ev('reports checked')
        rs = re.findall(r'Round-(\d+) models \[(\d+) new', txt)
        ctx.check([(int(a), int(b)) for a, b in rs] == [(r, len(f.calls[r]['models'])) for r in range(1, R + 1)], 'report-of-rounds', got=rs, text=txt, **d)
        m = re.search(r'Best models overall: (.*)', txt)
        n = B[0] if B else len(sorted_models)
        ctx.check(bool(m) and m.group(1) == ', '.join(str(x.kernel_expression) for x in sorted_models[:n]), 'report-of-best', text=txt[-600:], want=[str(x.kernel_expression) for x in sorted_models[:n]], **d)
    elif not verbose: ctx.check(out.getvalue() == '', 'output-when-not-verbose', text=out.getvalue()[:300], **d)
