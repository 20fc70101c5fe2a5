"""Printed forms."""
from gpyv import ref, gen
from GPy_ABCD import SumKE, ProductKE, ChangeKE
import numpy as np

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: round-trip oracle (own parser of the readable form; evaluation of the constructor form; covariance of the compiled readable form)'
RULE = ('a case is a random expression; its readable string is parsed by an independent precedence parser and its constructor string evaluated; both must denote the '
        'same canonical expression; on a subset the string is compiled to a covariance and compared with the expression''s own meaning; distinct by canonical tree; non-trivial = mixes sums with products or change operators')
N = {'quick': 24000, 'thorough': 300000}
MIN = {'monitor_checks': 20000, 'bracketed': 2000, 'change printed': 2000, 'compiled': 300}
NS = {'SumKE': SumKE, 'ProductKE': ProductKE, 'ChangeKE': ChangeKE}
X = np.array([-2.3, -.7, .4, .9, 2.6])[:, None]
DEF = {'variance': 1., 'offset': 0., 'lengthscale': 1., 'location': 0., 'width': 1.}


def meaning(t):
    if isinstance(t, str): return ref.kbase(t, {**DEF, **({'period': 2 * np.pi, 'lengthscale': 2 * np.pi} if t == 'PER' else {})}, X)
    if t[0] == '+': return sum(meaning(c) for c in t[1:])
    if t[0] == '*':
        r = 1.
        for c in t[1:]: r = r * meaning(c)
        return r
    a, b = ('Sr', 'S') if t[0] == 'CP' else ('SIr', 'SI')
    return meaning(t[1]) * ref.kbase(a, DEF, X) + meaning(t[2]) * ref.kbase(b, DEF, X)


def case(i, rng, ctx):
    t = gen.composite(rng) if rng.random() < .7 else gen.canon(rng)
    if ref.size(t) > 80: return
    n = ref.norm(t)
    with ctx.total('printing', tree=ref.to_str(t)):
        k = gen.build_any(t, rng)
        if isinstance(k, str): return
        if rng.random() < .5: k = k._initialise()
        s, r = str(k), repr(k)
    if i < 3: ctx.sample(s + '  |  ' + r)
    if ref.depth(n) >= 2: ctx.nontrivial(n)
    if '(' in s.replace('CP(', '').replace('CW(', ''): ctx.ev('bracketed')
    if 'CP(' in s or 'CW(' in s: ctx.ev('change printed')
    try: p = ref.norm(ref.parse(s))
    except ValueError as e: ctx.fail('unparseable-string', string=s, error=e, expected=n); p = None
    if p is not None: ctx.check(p == n, 'string-denotes-something-else', string=s, parsed=p, expected=n)
    with ctx.total('evaluating constructor form', form=r):
        k2 = eval(r, dict(NS))
    ctx.check(ref.tup(k2) == ref.tup(k), 'constructor-form-differs', form=r, got=ref.tup(k2), expected=ref.tup(k))
    ctx.check(type(k2) is type(k) and k2 == k and str(k2) == s, 'constructor-form-unequal', form=r, string=s, string2=str(k2))
    # nodes print themselves alone, not their context
    if not isinstance(k, str):
        for c in ref.comp_kids(k)[:3]:
            ctx.check(ref.norm(ref.parse(str(c))) == ref.unwrap(ref.tup(c)), 'sub-expression-string', string=str(c), expected=ref.tup(c))
    if i % 25 == 0 and ref.size(n) < 30:
        ctx.ev('compiled')
        with ctx.total('compiling readable form', string=s): K = k.to_kernel_unrefined().K(X)
        ctx.check(np.allclose(K, meaning(n), rtol=1e-5, atol=1e-8), 'compiled-string-differs', string=s, diff=np.abs(K - meaning(n)).max())
