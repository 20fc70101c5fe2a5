"""Search frontier."""
import contextlib, io
import numpy as np
from gpyv import ref, gen, stub
from GPy_ABCD import explore_model_space

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: recorded searches replayed against a reference search: each round must expand the best not yet expanded models and fit exactly the reference neighbours of those that were never fitted before'
RULE = ('a case is one search with random rules, starting kernels, scoring function, beam, rounds and fit values; for every round the expanded models and the set of newly fitted expressions are compared with the reference; '
        'distinct by (fitted expressions, arguments); non-trivial = a second expansion round or a round in which already tested expressions were excluded')
N = {'quick': 1800, 'thorough': 36000}
MIN = {'monitor_checks': 2000, 'rounds compared': 180, 'expressions compared': 5000, 'already tested excluded': 100, 'wide starts': 50}


def case(i, rng, ctx):
    s = stub.scenario(rng); R = s['rounds'] = max(s['rounds'], 1); B = stub.beams(s['beam'], R)
    X = np.linspace(0, 1, s['n'])[:, None]; Y = np.sin(X)
    f = stub.Fitter(f'{ctx.seed}/{i}', s['mode'])
    names = stub.rule_names(s['rules'])
    d = dict(rules=names, starts=repr(s['starts']), score=s['score'].__name__, beam=s['beam'], rounds=R, mode=s['mode'])
    starts = [ref.root_form(ref.norm(k if isinstance(k, str) else ref.tup(k))) for k in s['starts']]
    with ctx.total('explore_model_space', **d):
        _, tested, _, expanded, _ = explore_model_space(X, Y, start_kernels=s['starts'], p_rules=s['rules'], utility_function=s['score'], rounds=R, beam=s['beam'], restarts=1, model_list_fitter=f, verbose=False)
    if not ctx.check(len(f.calls) == R + 1, 'number-of-fitting-calls', got=len(f.calls), **d): return
    ctx.check(sorted(map(repr, f.calls[0]['tuples'])) == sorted(map(repr, starts)), 'starting-kernels', got=f.calls[0]['tuples'], want=starts, **d)
    if len(starts) > 3: ctx.ev('wide starts')
    val = {id(m): stub.value(d['score'], m) for m in f.models}
    where = {}
    unexp = list(f.calls[0]['models']); seen = set(f.calls[0]['tuples']); pos = 0; excluded = False
    for r, b in enumerate(B, 1):
        exp = expanded[pos:pos + min(b, len(unexp))]; pos += len(exp)
        ctx.ev('rounds compared')
        un = {id(m) for m in unexp}
        if not ctx.check(all(id(m) in un for m in exp) and len({id(m) for m in exp}) == len(exp), 'expanded-not-available', round=r, expanded=[str(m.kernel_expression) for m in exp], **d): return
        worst = max((val[id(m)] for m in exp), default=-1e300); ei = {id(m) for m in exp}
        left = [m for m in unexp if id(m) not in ei]
        ctx.check(all(val[id(m)] >= worst - 1e-12 * abs(worst) for m in left), 'expanded-not-the-best', round=r, expanded=[(str(m.kernel_expression), val[id(m)]) for m in exp], better=[(str(m.kernel_expression), val[id(m)]) for m in left if val[id(m)] < worst][:3], **d)
        want = set()
        for m in exp: want |= {ref.root_form(t) for t in ref.neighbours(ref.norm(ref.tup(m.kernel_expression)), names)}
        if want & seen: ctx.ev('already tested excluded', len(want & seen)); excluded = True
        want -= seen
        got = f.calls[r]['tuples']; ctx.ev('expressions compared', len(got))
        ctx.check(len(set(got)) == len(got), 'fitted-twice-in-a-round', round=r, twice=[ref.to_str(t) for t in set(got) if got.count(t) > 1][:5], **d)
        ctx.check(not set(got) & seen, 'fitted-again', round=r, again=[ref.to_str(t) for t in set(got) & seen][:5], **d)
        ctx.check(set(got) - seen == want, 'round-frontier', round=r, expanded=[str(m.kernel_expression) for m in exp], missing=[ref.to_str(t) for t in want - set(got)][:5], extra=[ref.to_str(t) for t in set(got) - want - seen][:5], **d)
        seen |= set(got); unexp = left + f.calls[r]['models']
    if R > 1 or excluded: ctx.nontrivial((tuple(map(tuple, (c['tuples'] for c in f.calls))), d['score'], repr(s['beam'])))
    if i < 3: ctx.sample(f'{d} fitted {[len(c["models"]) for c in f.calls]}')
