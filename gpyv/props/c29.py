"""Configuration flags."""
import numpy as np
from copy import deepcopy
from gpyv import ref, gen, fitted
from gpyv.worlds import world
from gpyv.props.c08 import values
from gpyv.props import c15, c16

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: the package imported under each of the 32 combinations of its configuration flags; canonical forms, grammar, compiled covariances, free parameters, absorption, decomposition and text compared with the reference under the same flags'
RULE = ('a case draws one of the 32 flag combinations and one aspect (canonical form and expansion, start kernels, compiled covariance and parameter count, absorbed parameters and sum of products, text, a whole small search) '
        'on a random expression; distinct by (flags, aspect, tree); non-trivial = composite tree')
N = {'quick': 3200, 'thorough': 60000}
MIN = {'monitor_checks': 8000, 'start groups': 32, 'aspect:expand': 300, 'aspect:compile': 300, 'aspect:describe': 300, 'aspect:search': 6, 'aspect:start': 20, 'K compared': 900, 'single parameters changed': 500, 'components matched': 600, 'lines parsed': 600, 'slopes described': 50, **{f'combination:{i}': 20 for i in range(32)}}
ASSUMPTIONS = ['with independent-sides change windows, descriptions and decompositions are only judged for expressions without change windows (the package does not describe the side shift)']
CASE_LIMIT = 120


def canon(rng, w, n):
    while True:
        t = ref.norm(gen.flavour(rng), w.offset)
        if ref.size(t) <= n: return ref.root_form(t)
def is_canonical(t, w):
    t = ref.unwrap(t) if len(t) == 2 and t[0] in '+*' and isinstance(t[1], str) else t
    return ref.norm(t, w.offset) == t
def n_params(t, w):
    par = {**ref.NPAR, 'LIN': 2 if w.offset else 1}
    if isinstance(t, str): return par[t]
    if t[0] in ref.CH: return n_params(t[1], w) + n_params(t[2], w) + (1 if t[0] == 'CP' else 2 + w.indep) + (not w.fixed)
    if t[0] == '+': return sum(n_params(c, w) for c in t[1:])
    b = ref.bases_of(t)
    return sum(par[x] - 1 for x in b) + bool(b) + sum(n_params(c, w) for c in t[1:] if not isinstance(c, str))
def kshapes(kt, w, ctx, d):
    """the base kernels are the ones the flags ask for"""
    if kt[0] == 'base':
        if kt[1] in ('PER', 'STDPER'): ctx.check((kt[1] == 'STDPER') == w.stdper, 'periodic-kernel-kind', got=kt[1], **d)
        if kt[1] == 'LIN': ctx.check(('offset' in kt[2]) == w.offset, 'linear-kernel-kind', got=kt[2], **d)
        return
    for c in (kt[1] if kt[0] in '+*' else kt[1:3]): kshapes(c, w, ctx, d)
    if kt[0] == 'CW': ctx.check(('shift_variance' in kt[3]) == w.indep, 'change-window-kind', got=kt[3], **d)


def renamed(c):
    v, bs, s = c
    return v, {('PER' if b == 'STDPER' else b): p for b, p in bs.items()}, s


def case(i, rng, ctx):
    j = i % 32
    with world(j) as w:
        import GPy_ABCD
        d0 = dict(flags={k: v for k, v in vars(w).items() if k != 'mods'})
        ctx.ev(f'combination:{j}')
        aspect = 'start' if i // 32 == 0 else 'search' if i // 32 == 1 else rng.choice(['expand', 'compile', 'describe', 'describe'])
        ctx.ev('aspect:' + aspect)
        globals()['do_' + aspect](i, rng, ctx, w, d0)


def pb_of(w): return ref.PB + (('SE',) if w.se else ())

def do_start(i, rng, ctx, w, d):
    from GPy_ABCD import start_kernels, production_rules, base_kerns
    ctx.ev('start groups')
    for g in start_kernels:
        ks = [ref.tup(k) for k in start_kernels[g]]
        d2 = dict(d, group=g, got=[ref.to_str(k) for k in ks])
        ctx.check(all(is_canonical(k, w) for k in ks), 'start-kernel-not-canonical', **d2)
        ctx.check(len(set(ks)) == len(ks), 'start-kernels-repeated', **d2)
        ctx.check(not any('SE' in ref.leaves(k) for k in ks), 'start-kernel-with-SE', **d2)
        want = {ref.root_form(b) for b in ref.PB} | {('*', 'LIN', 'LIN'), ('*', 'LIN', 'LIN', 'LIN'), ref.sort_t(('+', 'PER', 'C'))} if g != 'Original_ABCD' else {('+', 'WN')}
        if g == 'Default': want |= {(o, 'LIN', 'LIN') for o in ref.CH}
        if g == 'Extended': want |= {ref.sort_t(('+', 'C', (o, 'LIN', 'LIN'))) for o in ref.CH}
        if not w.offset: want.add(ref.sort_t(('+', 'LIN', 'C')))
        ctx.check(set(ks) == want, 'start-kernels', missing=[ref.to_str(x) for x in want - set(ks)], extra=[ref.to_str(x) for x in set(ks) - want], **d2)
    ctx.check(base_kerns == frozenset(ref.BASES), 'base-kernels', got=sorted(base_kerns), **d)


def do_expand(i, rng, ctx, w, d):
    from GPy_ABCD import production_rules
    from GPy_ABCD.KernelExpansion.grammar import expand
    raw = gen.composite(rng)
    with ctx.total('simplify', tree=ref.to_str(raw), **d): e = gen.build_any(raw, rng)._initialise()
    ctx.check(ref.unwrap(ref.tup(e)) == ref.norm(raw, w.offset), 'canonical-form', tree=ref.to_str(raw), got=repr(e), want=ref.to_str(ref.norm(raw, w.offset)), **d)
    t = canon(rng, w, 9)
    g = rng.choice(list(ref.GROUPS)); rules = ref.GROUPS[g]
    k = gen.root(t); d = dict(d, expr=repr(k), group=g)
    ctx.check(ref.unwrap(ref.tup(k)) == ref.unwrap(t), 'canonical-form-not-stable', **d)
    with ctx.total('expand', **d): got = [ref.tup(x) for x in expand(k, production_rules[g])]
    exp = {ref.root_form(x) for x in ref.neighbours(t, rules, pb_of(w), w.offset)}
    ctx.check(len(set(got)) == len(got), 'expansion-duplicates', dup=[ref.to_str(x) for x in set(got) if got.count(x) > 1][:3], **d)
    ctx.check(set(got) <= exp, 'expansion-not-one-step-away', extra=[ref.to_str(x) for x in set(got) - exp][:4], **d)
    ctx.check(exp <= set(got), 'expansion-missing', missing=[ref.to_str(x) for x in exp - set(got)][:4], **d)
    ctx.ev('neighbours compared', len(exp))
    if ref.size(t) > 2: ctx.nontrivial((i % 32, 'expand', t, g))


def do_compile(i, rng, ctx, w, d):
    t = canon(rng, w, 16); e = gen.root(t); d = dict(d, expr=repr(e))
    with ctx.total('to_kernel', **d): k = e.to_kernel()
    ctx.check(ref.kshape(ref.ktree(k)) == ref.unwrap(t), 'structure', got=ref.kshape(ref.ktree(k)), **d)
    kshapes(ref.ktree(k), w, ctx, d)
    want = n_params(ref.unwrap(t), w)
    ctx.check(k.size == want, 'free-parameter-count', got=k.size, want=want, names=k.parameter_names_flat().tolist(), **d)
    X, Z = gen.inputs(rng, np, kinds=('unif', 'grid', 'tight', 'neg')), gen.inputs(rng, np, kinds=('unif', 'grid', 'tight', 'neg'))
    gen.set_params(k, rng, np, wide=False)
    if 'shift_variance' in str(k.parameter_names_flat()): ctx.ev('shifted sides compiled')
    values(ctx, k, X, Z, 'values', **d)
    c = k.copy(); gen.set_params(k, rng, np, wide=False); values(ctx, k, X, Z, 'values-after-change', **d); values(ctx, c, X, Z, 'values-of-copy', **d)
    for _ in range(3): ctx.ev('single parameters changed'); values(ctx, k, X, Z, 'values-after-one-parameter', changed=gen.set_one(k, rng, np), **d)
    if ref.size(t) > 2: ctx.nontrivial((i % 32, 'compile', t))


def do_describe(i, rng, ctx, w, d):
    while True:
        t = ref.root_form(ref.norm(fitted.expression(rng, 14), w.offset)) if rng.random() < .5 else canon(rng, w, 14)
        if c15.ncomp(t) <= 30 and not (w.indep and 'CW' in ops(t)): break
    d = dict(d, expr=ref.to_str(t))
    kt, e, k, d = fitted.absorbed(rng, ctx, t, **d)
    A, B = sorted(ref.absorbed_values(e)), sorted(float(x) for x in k.param_array)
    ctx.check(len(A) == len(B) and np.allclose(A, B, rtol=1e-12), 'absorbed-values', got=A, want=B, **d)
    text_first = rng.random() < .5
    if text_first:
        with ctx.total('get_interpretation', **d): text = deepcopy(e).get_interpretation()
    want = [renamed(c) for c in c15.expected(kt, not w.fixed)]
    with ctx.total('sum_of_prods_form', **d): s = deepcopy(e).sum_of_prods_form()
    try: live = [c15.live_component(c) for c in s.composite_terms]
    except (KeyError, IndexError, TypeError) as x: ctx.fail('malformed-component', error=repr(x), form=repr(s), **d); return
    rest = list(want)
    ctx.check(len(live) == len(want), 'component-count', got=len(live), want=len(want), **d)
    for c in live:
        ctx.ev('components matched')
        for q, x in enumerate(rest):
            if c15.comp_match(c, x): del rest[q]; break
        else: ctx.fail('component-not-in-kernel', component=c, remaining=rest[:6], **d)
    if not text_first:
        with ctx.total('get_interpretation', **d): text = e.get_interpretation(s) if rng.random() < .5 else e.get_interpretation()
    lines = text.split('\n')[1:]
    if not ctx.check(len(lines) == len(want), 'number-of-lines', text=text, want=len(want), **d): return
    try: ps = [ref.parse_component(l) for l in lines]
    except (ValueError, KeyError) as x: ctx.fail('unreadable-line', error=str(x), text=text, **d); return
    ctx.ev('lines parsed', len(ps))
    M = [[c16.line_match(p, c) and slopes_ok(ctx, p, c, w) for c in want] for p in ps]
    ctx.check(c16.perfect(M), 'lines-and-components-not-one-to-one', text=text, components=want, **d)
    if ref.size(t) > 2: ctx.nontrivial((i % 32, 'describe', t))
def ops(t): return set() if isinstance(t, str) else {t[0]}.union(*[ops(c) for c in t[1:]])
def slopes_ok(ctx, p, c, w):
    """every printed interval end carries the slope of a factor ending there, when slopes are parameters; none otherwise"""
    for a, b, sl in p['intervals'] or []:
        if w.fixed:
            if sl is not None: return False
            continue
        if sl is None: return False
        ctx.ev('slopes described')
        ends = [x for x in (a, b) if abs(x) != ref.INF]
        if len(sl) > len(ends): return False
        if len(sl) < len(ends): sl = sl * 2
        for x, v in zip(ends, sl):
            at = [s['slope'] for n, s in c[2] for y in ([s['location']] + ([s['location'] + s['width']] if 'width' in s else [])) if abs(x - y) < .006]
            if not any(ref.close2(y, v) for y in at): return False
    return True


def do_search(i, rng, ctx, w, d):
    """a whole search on a small data set: results ranked by the score of their own likelihood and parameter count"""
    from GPy_ABCD import explore_model_space, fit_mods_not_parallel, BIC, production_rules, start_kernels
    X = np.linspace(-3, 3, 12)[:, None]; Y = np.sin(2 * X) + .4 * X + .1 * np.random.randn(12, 1)
    with ctx.total('search', **d):
        best, allm, alle, ex, nex = explore_model_space(X, Y, start_kernels['Default'], production_rules['Minimal'][:2], BIC, 1, [1], 1, fit_mods_not_parallel, 'lbfgsb', 1, False)
    ctx.check(len(best) == sum(map(len, allm)) == len(alle) == len(ex) + len(nex), 'search-accounting', sizes=[len(best), [len(a) for a in allm], len(alle), len(ex), len(nex)], **d)
    exp = {ref.root_form(x) for x in ref.neighbours(ref.tup(ex[0].kernel_expression), ['plus_base', 'times_base'], pb_of(w), w.offset)}
    start = {ref.tup(m.kernel_expression) for m in allm[0]}
    ctx.check({ref.tup(m.kernel_expression) for m in allm[1]} == exp - start, 'search-round', **d)
    sc = []
    for m in best:
        want = -2 * m.model.log_likelihood() + (n_params(ref.unwrap(ref.tup(m.kernel_expression)), w) + 1) * np.log(12)
        sc.append(m.cached_utility_function)
        ctx.check(abs(m.cached_utility_function - want) < 1e-6 * max(1, abs(want)), 'score', expr=repr(m.kernel_expression), got=m.cached_utility_function, want=want, **d)
    ctx.check(sc == sorted(sc), 'ranking', **d)
    for m in best[:6]:
        if not (w.indep and 'CW' in ops(ref.tup(m.kernel_expression))):
            with ctx.total('interpret', expr=repr(m.kernel_expression), **d): m.interpret()
        with ctx.total('predict', **d): p = m.predict(np.array([[4.]]))
        ctx.check(p['low_quantile'][0, 0] <= p['mean'][0, 0] <= p['high_quantile'][0, 0], 'prediction-order', **d)
    ctx.nontrivial((i % 32, 'search'))
