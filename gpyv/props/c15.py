"""Sum-of-products form."""
import numpy as np
from gpyv import ref, gen
from gpyv.fitted import expression, absorbed
from gpyv.props.c08 import tol_of

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: component-by-component comparison of the canonical sum-of-products form with an independent distribution of the fitted kernel, plus covariance equality and purity of the products'
RULE = ('a case takes a random expression with absorbed random parameters, computes its sum-of-products form and matches its components (variance, base factors with parameters, sigmoids with parameters) one to one with those '
        'obtained by distributing the compiled kernel independently; distinct by (tree, values); non-trivial = >= 2 components or a distribution took place')
N = {'quick': 4000, 'thorough': 120000}
MIN = {'monitor_checks': 15000, 'components matched': 5000, 'forms computed': 2500, 'distributed': 800, 'with sigmoids': 800, 'model-level forms': 300, 'over 60 terms': 15}


TERMS = ['LIN', 'PER', 'SE', 'LIN', 'PER', 'C', 'WN', ('*', 'LIN', 'PER'), ('CP', 'LIN', 'PER'), ('CW', 'SE', 'LIN')]

def simil(a, b):
    if isinstance(a, str): return a == b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)
def ps_match(ps, qs):
    """multisets of parameter dictionaries agree"""
    qs = list(qs)
    for p in ps:
        for j, q in enumerate(qs):
            if set(p) == set(q) and all(simil(p[x], q[x]) for x in p): del qs[j]; break
        else: return False
    return not qs
def live_component(ct):
    P = {b: [dict(p) for p in ps] for b, ps in ct.parameters.items() if ps}
    v = P.pop('ProductKE')[0]['variance']
    if 'WN' in P: P['WN'] = [{}]  # idempotent, without parameters of its own
    sig = [(b, p) for b in ref.SIGS for p in P.pop(b, [])]
    return v, P, sig
def keyed(c):
    v, bs, s = c
    return (tuple(sorted((b, len(ps)) for b, ps in bs.items())), tuple(sorted(b for b, _ in s)))
def sigs_of(s, kt_fields=('location', 'width', 'slope')):
    return [{'name': b, **{f: p[f] for f in kt_fields if f in p}} for b, p in s]
def comp_match(a, b):
    return keyed(a) == keyed(b) and simil(a[0], b[0]) and all(ps_match(a[1][x], b[1][x]) for x in a[1]) and ps_match(sigs_of(a[2]), sigs_of(b[2]))

def expected(kt, slope_free=False):
    """components of the compiled kernel in the documented simplified form; fixed slopes are no parameters"""
    res = []
    for v, bs, s in map(ref.simplify_component, ref.components(kt)):
        s = [(b, {f: x for f, x in p.items() if f in ('location',) or (f == 'width' and b in ('SI', 'SIr')) or (f == 'slope' and slope_free)}) for b, p in s]
        res.append((v, bs, s))
    return res


def compare(ctx, sops, kt, k, d, rng):
    ctx.ev('forms computed')
    ctx.check(type(sops).__name__ == 'SumKE' and sum(sops.base_terms.values()) == 0 and not any(ps for ps in sops.parameters.values()), 'not-a-sum-of-products', got=repr(sops), **d)
    pure = all(type(c).__name__ == 'ProductKE' and not c.composite_terms for c in sops.composite_terms)
    if not ctx.check(pure, 'impure-product', got=repr(sops), **d): return
    for c in sops.composite_terms:
        n = {b: 1 if b == 'WN' else len(ps) for b, ps in c.parameters.items() if ps and b != 'ProductKE'}
        ctx.check(dict(+c.base_terms) == n, 'terms-and-parameters-disagree', terms=dict(c.base_terms), parameters=dict(c.parameters), **d)
    try: live = [live_component(c) for c in sops.composite_terms]
    except (KeyError, IndexError, TypeError) as x: ctx.fail('malformed-component', error=repr(x), form=repr([dict(c.parameters) for c in sops.composite_terms]), **d); return
    want = expected(kt)
    ctx.check(len(live) == len(want), 'component-count', got=len(live), want=len(want), form=repr(sops), **d)
    rest = list(want)
    for c in live:
        ctx.ev('components matched')
        for j, w in enumerate(rest):
            if comp_match(c, w): del rest[j]; break
        else: ctx.fail('component-not-in-kernel', component=c, remaining=rest[:6], **d)
    if any(c[2] for c in live): ctx.ev('with sigmoids')
    X, Z = gen.inputs(rng, np, 4), gen.inputs(rng, np, 3)
    for args in ((X, None), (X, Z)):
        with ctx.total('K', **d): K = k.K(*args)
        got = sum(ref.ceval(c, *args) for c in live)
        m, er = tol_of(kt, *args)
        # sums of distributed terms may cancel: allow for the magnitude of the absolute terms
        mm = sum(np.abs(ref.ceval(c, *args)) for c in live)
        ctx.check(np.all(np.abs(got - K) <= 6 * er + 1e-8 * (m + mm) + 1e-300), 'covariance-differs', got=got.tolist(), want=K.tolist(), form=repr(sops), **d)
    return live


def case(i, rng, ctx):
    while True:
        many = i % 97 == 5  # products of several sums: many distributed terms
        t = ref.root_form(ref.norm(('*',) + tuple(('+',) + tuple(rng.choice(TERMS) for _ in range(rng.randint(3, 6))) for _ in range(rng.randint(2, 4))))) if many else expression(rng, 14)
        if many and 60 < ncomp(t) <= 300: ctx.ev('over 60 terms'); break
        if not many and ncomp(t) <= 40: break
    d = dict(expr=ref.to_str(t))
    if i % 8 == 0:  # through the model's own property
        from GPy_ABCD.Models.model import GPModel
        X = np.arange(4.)[:, None]
        with ctx.total('GPModel', **d): m = GPModel(X, np.sin(X), gen.root(t)); m.fit(0)
        try: m.model.randomize()
        except np.linalg.LinAlgError: return
        before = ref.tup(m.kernel_expression), {a: list(b) for a, b in m.kernel_expression.parameters.items()}
        with ctx.total('sum_of_prods_kex', **d): s = m.sum_of_prods_kex
        ctx.check((ref.tup(m.kernel_expression), {a: list(b) for a, b in m.kernel_expression.parameters.items()}) == before, 'model-expression-modified', **d)
        ctx.check(m.sum_of_prods_kex is s or ref.tup(m.sum_of_prods_kex) == ref.tup(s), 'form-changes-when-read-again', **d)
        k = m.model.kern; kt = ref.ktree(k); ctx.ev('model-level forms')
    else:
        kt, e, k, d = absorbed(rng, ctx, t, precise=rng.random() < .4, **d)
        with ctx.total('sum_of_prods_form', **d): s = e.sum_of_prods_form()
    live = compare(ctx, s, kt, k, d, rng)
    if live and (len(live) > 1 or len(live[0][1]) > 1): ctx.nontrivial((t, tuple(k.param_array)))
    if live and any(not isinstance(c, str) for c in t[1:]): ctx.ev('distributed')
    if i < 3 and live: ctx.sample(f'{ref.to_str(t)} -> {live}')
def ncomp(t):
    if isinstance(t, str): return 1
    if t[0] == '*':
        r = 1
        for c in t[1:]: r *= ncomp(c)
        return r
    return sum(ncomp(c) for c in t[1:])
