"""Inputs of searches."""
import contextlib, io
import numpy as np
import pandas as pd
from copy import deepcopy
from gpyv import ref, gen, stub
from gpyv.snap import snap
from gpyv.props.c23 import view
import GPy_ABCD
from GPy_ABCD import explore_model_space, start_kernels, production_rules, production_rules_by_type, fit_kex

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: equivalent forms of the same arguments must give the same recorded search, and snapshots of every argument and module default are compared around it'
RULE = ('a case runs one search several times with equivalent arguments (data as 1-D or 2-D arrays, lists, tuples or ranges; beam as an integer, short, exact or long list; verbose or not; start kernels as strings or expressions; defaults omitted or given) and compares '
        'results, fitting calls and snapshots; distinct by (search, forms); non-trivial = at least one round')
N = {'quick': 1200, 'thorough': 16000}
MIN = {'monitor_checks': 6000, 'data forms': 1500, 'beam forms': 1000, 'defaults snapshots': 800, 'rejected beams': 200, 'rejected start kernels': 150, 'default arguments': 150}


def defaults():
    return ({k: [(id(x), snap(x)) for x in v] for k, v in start_kernels.items()}, {k: [id(f) for f in v] for k, v in production_rules.items()}, {k: {a: id(b) for a, b in v.items()} for k, v in production_rules_by_type.items()})


LINS = [(op,) + p for op in ref.CH for p in (('LIN', 'LIN'),)]


def setup(ctx):
    """the named groups of start kernels"""
    bases = ['WN', 'C', 'LIN', 'PER']; more = [('*', 'LIN', 'LIN'), ('*', 'LIN', 'LIN', 'LIN'), ('+', 'PER', 'C')]
    exp = {'Default': bases + more + LINS, 'Extended': bases + more + [('+', 'C', c) for c in LINS], 'Original_ABCD': ['WN']}
    for g, ts in exp.items():
        if not ctx.check(g in start_kernels, f'start-group-missing:{g}', got=list(start_kernels)): continue
        got = [ref.tup(k) for k in start_kernels[g]]
        ctx.check(sorted(got, key=repr) == sorted((ref.root_form(ref.norm(t)) for t in ts), key=repr), f'start-group-contents:{g}', got=[ref.to_str(t) for t in got], expected=[ref.to_str(t) for t in ts])
        ctx.check(all(k.root is k and k.parent is None for k in start_kernels[g]), f'start-group-links:{g}')


def case(i, rng, ctx):
    s = stub.scenario(rng); R = s['rounds'] = min(s['rounds'], 2)
    n = s['n']; x = np.linspace(0, 1, n) if rng.random() < .7 else np.arange(n); y = np.round(np.sin(x), 6) if rng.random() < .8 else np.arange(n)[::-1].copy()
    seed = f'{ctx.seed}/{i}'
    B = stub.beams(s['beam'], R)
    d = dict(rules=stub.rule_names(s['rules']), starts=repr(s['starts']), score=s['score'].__name__, beam=s['beam'], rounds=R, mode=s['mode'])
    base = None; dflt = defaults()
    forms = {'1d': lambda a: a.copy(), '2d': lambda a: a.copy()[:, None], 'list': lambda a: a.tolist(), 'tuple': lambda a: tuple(a.tolist()), 'f-order': lambda a: np.asfortranarray(a[:, None]), 'mixed': lambda a: [int(v) if v == int(v) else float(v) for v in a], 'scalars': lambda a: list(a), 'strided': lambda a: np.repeat(a, 2)[::2], 'series': lambda a: pd.Series(a, index=range(5, 5 + len(a)))}
    bforms = ([B, B + [7], B + [1, 2, 3]] if R else [[], [3], 2])
    if len(set(B)) == 1: bforms += [B[0], [B[0]]]
    if len(B) == 2 and B[0] == B[1]: bforms += [[B[0]]]
    for rep in range(rng.randint(2, 4)):
        fx, fy = rng.choice(list(forms)), rng.choice(list(forms)); bm = deepcopy(s['beam'] if rep == 0 else rng.choice(bforms))
        X, Y = forms[fx](x), forms[fy](y); X0, Y0, bm0 = deepcopy(X), deepcopy(Y), deepcopy(bm)
        f = stub.Fitter(seed, s['mode']); verbose = rng.random() < .4
        starts, rules = list(s['starts']), list(s['rules'])
        s0, r0 = [(id(k), snap(k) if not isinstance(k, str) else k) for k in starts], list(rules)
        dd = dict(d, forms=(fx, fy), beam_form=bm, verbose=verbose)
        with ctx.total('explore_model_space', **dd), contextlib.redirect_stdout(io.StringIO()):
            res = explore_model_space(X, Y, start_kernels=starts, p_rules=rules, utility_function=s['score'], rounds=R, beam=bm, restarts=1, model_list_fitter=f, verbose=verbose)
        ctx.ev('data forms'); ctx.ev('beam forms')
        for c in f.calls:
            ctx.check(np.shape(c['X']) == (n, 1) and np.shape(c['Y']) == (n, 1) and np.array_equal(np.asarray(c['X'])[:, 0], x) and np.array_equal(np.asarray(c['Y'])[:, 0], y), 'data-given-to-fitter', shape=(np.shape(c['X']), np.shape(c['Y'])), **dd)
        ctx.check(type(X) is type(X0) and np.array_equal(np.asarray(X), np.asarray(X0)) and np.array_equal(np.asarray(Y), np.asarray(Y0)) and np.shape(X) == np.shape(X0), 'data-modified', **dd)
        ctx.check(bm == bm0, 'beam-modified', got=bm, **dd)
        # start expressions are initialised in place by design (links), never restructured
        ctx.check([ref.tup(k) for k in starts] == [ref.tup(k) for k in s['starts']] and [id(k) for k in starts] == [a for a, _ in s0] and rules == r0, 'arguments-modified', **dd)
        v = (view(res), [sorted(map(repr, c['tuples'])) for c in f.calls])
        if base is None: base = v
        else: ctx.check(v == base, 'equivalent-arguments-differ', got=v[1], first=base[1], **dd)
        ctx.ev('defaults snapshots'); ctx.check(defaults() == dflt, 'module-defaults-modified', **dd)
    if R: ctx.nontrivial((repr(base[1]), d['score'], i))
    # ill-typed beams are refused
    if rng.random() < .4:
        bad = rng.choice([2.5, '3', (3, 2), [2, 'a'], [1.5], None, {1: 2}]); ctx.ev('rejected beams')
        try:
            explore_model_space(x, y, start_kernels=['WN'], p_rules=list(s['rules']), rounds=1, beam=bad, restarts=1, model_list_fitter=stub.Fitter(seed), verbose=False)
            ctx.fail('ill-typed-beam-accepted', beam=bad)
        except TypeError: ctx.check(True, 'ok')
        except Exception as e: ctx.fail('ill-typed-beam-other-error', beam=bad, error=repr(e))
    # start kernels which are neither expressions nor names of base kernels are refused
    if rng.random() < .3:
        bad = rng.choice(['XYZ', 'lin', 'S', '', 'PER + C', 3, None, ('LIN',)]); ctx.ev('rejected start kernels'); f = stub.Fitter(seed)
        good = rng.choice(['WN', 'PER', 'LIN']); ks = rng.choice([[bad], [good, bad], [bad, good]])
        try:
            explore_model_space(x, y, start_kernels=ks, p_rules=list(s['rules']), rounds=1, beam=1, restarts=1, model_list_fitter=f, verbose=False)
            ctx.fail('invalid-start-kernel-accepted', start=ks)
        except ValueError: ctx.check(not f.calls, 'fitted-before-refusing', start=ks)
        except Exception as e: ctx.fail('invalid-start-kernel-other-error', start=ks, error=repr(e))
    # documented defaults
    if rng.random() < .3:
        ctx.ev('default arguments'); ga, gb = stub.Fitter(seed), stub.Fitter(seed)
        with ctx.total('default search'), contextlib.redirect_stdout(io.StringIO()):
            a = explore_model_space(x, y, model_list_fitter=ga)
            b = explore_model_space(x, y, start_kernels['Default'], production_rules['Default'], GPy_ABCD.BIC, 2, [3, 2, 1], 5, gb, 'lbfgsb', 1, False)
        ctx.check(view(a) == view(b), 'defaults-differ-from-documented', **d)
        ctx.check({(c['restarts'], c['optimiser'], c['max_retries']) for c in ga.calls} == {(5, 'lbfgsb', 1)}, 'default-options', got=[(c['restarts'], c['optimiser'], c['max_retries']) for c in ga.calls])
        ctx.check(defaults() == dflt, 'module-defaults-modified', **d)
    if i < 3: ctx.sample(f'{d}')
