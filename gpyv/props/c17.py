"""Regions in interpretations."""
import numpy as np
from gpyv import ref

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: the region printed for a product of any number of sigmoid and indicator factors compared with the exact intersection of their individual regions'
RULE = ('a case draws 1-7 sigmoidal factors of any kinds with random, nested, touching, equal or disjoint locations and widths, has them described, parses the described region and compares it with the intersection of the factors\' own '
        'regions; distinct by factors; non-trivial = >= 2 factors')
N = {'quick': 60000, 'thorough': 1500000}
MIN = {'monitor_checks': 60000, 'empty regions': 1500, 'several intervals': 4000, 'four kinds': 1500, 'touching': 1500, 'tiny regions': 150}


def draw(rng):
    grid = rng.random() < .35
    loc = (lambda: float(rng.randint(-4, 4))) if grid else (lambda: round(rng.uniform(-6, 6), 3))
    if not grid and rng.random() < .15:  # close together
        c = loc(); loc = lambda: round(c + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -1), 6)
    wid = (lambda: float(rng.randint(1, 5))) if grid else (lambda: round(rng.choice([rng.uniform(.05, 2), rng.uniform(1, 12)]), 3))
    m = rng.random()
    if m < .25: kinds = [rng.choice(['SI', 'SIr']) for _ in range(rng.randint(2, 6))]
    elif m < .4: kinds = ['SIr'] * rng.randint(2, 5) + [rng.choice(ref.SIGS)]
    elif m < .5: kinds = list(ref.SIGS) + [rng.choice(ref.SIGS) for _ in range(rng.randint(0, 3))]
    else: kinds = [rng.choice(ref.SIGS) for _ in range(rng.randint(1, 5))]
    rng.shuffle(kinds)
    return [(n, {'location': loc(), **({'width': wid()} if n in ('SI', 'SIr') else {})}) for n in kinds], grid


def case(i, rng, ctx):
    from GPy_ABCD.KernelExpansion.kernelInterpretation import base_factors_interpretation
    from GPy_ABCD.KernelExpressions.commutatives import ProductKE
    fs, grid = draw(rng)
    bs = rng.choice([[('C', {'variance': 2.})], [('SE', {'lengthscale': 1.5, 'variance': 2.})], [('PER', {'lengthscale': 1.5, 'period': 2., 'variance': 1.})], [('LIN', {'offset': 1.5, 'variance': 1.})], [('WN', {'variance': 2.})]])
    d = dict(factors=fs, base=bs)
    direct = rng.random() < .5
    with ctx.total('describe', **d):
        if direct:
            P = {'ProductKE': [{'variance': 2.}]}
            for b, p in bs + fs: P.setdefault(b, []).append({k: v for k, v in p.items() if k != 'variance'})
        else: P = ProductKE([]).new_bases_with_parameters([(b, dict(p)) for b, p in bs + fs]).parameters
        text = base_factors_interpretation(P)
    true = ref.intersect([ref.sig_set(n, p) for n, p in fs])
    d['text'] = text
    try: got = ref.parse_component(text)['intervals']
    except (ValueError, KeyError) as x: ctx.fail('unreadable', error=str(x), **d); return
    if got is None: ctx.fail('region-missing', true=true, **d); return
    if not true: ctx.ev('empty regions')
    if len(true) > 1: ctx.ev('several intervals')
    if len({n for n, _ in fs}) == 4: ctx.ev('four kinds')
    ends = [x for n, p in fs for x in ([p['location']] + ([p['location'] + p['width']] if 'width' in p else []))]
    if len(set(ends)) < len(ends): ctx.ev('touching')
    ev = sorted(set(ends))
    if all(b - a > 1e-6 for a, b in zip(ev, ev[1:])):  # however short, a region is described, and an empty one is not
        if any(b - a < .005 for a, b in true): ctx.ev('tiny regions')
        ctx.check(len(got) == len(true), 'number-of-intervals', described=got, true=true, **d)
    ctx.check(ref.same_set(got, true), 'region-differs', described=got, true=true, **d)
    if len(fs) > 1: ctx.nontrivial(tuple((n, tuple(sorted(p.items()))) for n, p in fs))
    if i < 3: ctx.sample(f'{fs} -> {got}')
