"""Canonical simplification."""
from collections import Counter
from gpyv import ref, gen
from GPy_ABCD import SumKE, ProductKE, ChangeKE
from copy import deepcopy

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: canonical-form oracle (independent rewriter) over randomly assembled live expression trees'
RULE = ('a case is a random raw tree (nesting, repetition, singleton wrappers, all operators), assembled 5 ways (as given, shuffled, regrouped, '
        'mixed constructor forms, grown incrementally); non-trivial = canonical form has >= 3 nodes or simplification removed something; distinct by (raw tree)')
N = {'quick': 26000, 'thorough': 400000}
MIN = {'monitor_checks': 20000, 'identity:constant dropped from product': 100, 'identity:white noise annihilates': 100, 'identity:smooth idempotent in product': 50,
       'identity:line absorbs constant in sum': 100, 'identity:noise or constant idempotent in sum': 100, 'identity:flattening': 500, 'identity:singleton unwrapped': 500}


def grow(t, rng):
    """assemble by adding terms one at a time to a live sum or product (then one full simplification)"""
    if isinstance(t, str): return t
    ch = [grow(c, rng) for c in t[1:]]
    if t[0] in ref.CH: return ChangeKE(t[0], *ch)
    rng.shuffle(ch)
    k = (SumKE if t[0] == '+' else ProductKE)([])
    # composite terms first or interleaved: new_base only simplifies base terms, so the whole is simplified at the end as the methods' users do
    comps, bs = [c for c in ch if not isinstance(c, str)], [c for c in ch if isinstance(c, str)]
    if comps: k.new_composite(comps if rng.random() < .5 else comps[0])
    if comps and len(k.composite_terms) < len(comps):
        for c in comps[1:]: k.new_composite(c)
    if rng.random() < .5 and bs: k.new_base(bs)
    else:
        for b in bs: k.new_base(b)
    return k.simplify()


def identities(t, ctx):
    if isinstance(t, str): return
    ch = t[1:]
    b = Counter(c for c in ch if isinstance(c, str))
    if t[0] == '+':
        if b['LIN'] and b['C']: ctx.ev('identity:line absorbs constant in sum')
        if b['C'] > 1 or b['WN'] > 1: ctx.ev('identity:noise or constant idempotent in sum')
    elif t[0] == '*':
        if b['C'] and len(ch) > b['C']: ctx.ev('identity:constant dropped from product')
        if b['WN'] and (b['SE'] or b['PER'] or b['C'] or b['WN'] > 1): ctx.ev('identity:white noise annihilates')
        if b['SE'] > 1: ctx.ev('identity:smooth idempotent in product')
    if t[0] in '+*':
        if any(not isinstance(c, str) and c[0] == t[0] for c in ch): ctx.ev('identity:flattening')
        if len(ch) == 1: ctx.ev('identity:singleton unwrapped')
    for c in ch: identities(c, ctx)


def case(i, rng, ctx):
    t = gen.composite(rng)
    if ref.size(t) > 120: return
    n = ref.norm(t)
    identities(t, ctx)
    if ref.size(n) >= 3 or n != ref.sort_t(t): ctx.nontrivial(t)
    if i < 3: ctx.sample(f'{ref.to_str(t)}  ->  {ref.to_str(n)}')
    variants = [('as given', t, gen.build), ('shuffled', gen.shuffled(rng, t), gen.build), ('regrouped', gen.regrouped(rng, t), gen.build),
                ('mixed constructors', t, lambda x: gen.build_any(x, rng)), ('grown', t, lambda x: grow(x, rng))]
    for name, tv, mk in variants:
        with ctx.total('construction', tree=ref.to_str(tv), how=name):
            k = mk(tv)
            got = ref.unwrap(ref.tup(k)) if not isinstance(k, str) else k
        ctx.check(got == n, f'not-canonical:{name}', tree=ref.to_str(tv), got=got, expected=n)
        if isinstance(k, str): continue
        # simplifying again, initialising and standardising the root are no-ops on the meaning and reach the same form
        with ctx.total('re-simplification', tree=ref.to_str(tv), how=name):
            k2 = deepcopy(k); k2.simplify(); again = ref.unwrap(ref.tup(k2))
            k3 = deepcopy(k)._initialise(); init = ref.unwrap(ref.tup(k3))
            std = gen.standard(k3)
            final = ref.tup(std)
        ctx.check(again == got, f'not-idempotent:{name}', tree=ref.to_str(tv), first=got, second=again)
        ctx.check(init == n, f'initialise-not-canonical:{name}', tree=ref.to_str(tv), got=init, expected=n)
        ctx.check(final == ref.root_form(n), f'root-form:{name}', tree=ref.to_str(tv), got=final, expected=ref.root_form(n))
        ctx.check(ref.integrity(std) == [], f'links:{name}', tree=ref.to_str(tv), problems=ref.integrity(std)[:3])
