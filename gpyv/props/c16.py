"""Interpretation text."""
import re
import numpy as np
from copy import deepcopy
from gpyv import ref, gen
from gpyv.fitted import expression, absorbed
from gpyv.props.c15 import ncomp, expected

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: the generated text is parsed back into components and matched one to one, up to its two decimals, with the components of the fitted kernel'
RULE = ('a case takes a random expression with random or fitted parameters, generates its description, parses every line and matches them with the components distributed independently from the compiled kernel (kinds of factors, '
        'orders, offsets, periods, lengthscales, overall variance, region of application); distinct by (tree, values); non-trivial = >= 2 lines or >= 2 factors')
N = {'quick': 3000, 'thorough': 120000}
MIN = {'monitor_checks': 5000, 'lines parsed': 5000, 'with intervals': 500, 'polynomial': 100, 'several periodic': 50, 'model.interpret': 200, 'nowhere': 10}
ASSUMPTIONS = ['numbers are compared up to the two decimals printed; periods equal to two decimals may be listed in either order']


def line_match(l, c):
    v, bs, s = c
    if not ref.close2(v, l['var']): return False
    if {b: len(p) for b, p in l['bases'].items()} != {b: len(p) for b, p in bs.items()}: return False
    for b, ps in bs.items():
        if not multi(ps, l['bases'][b]): return False
    if s:
        if l['intervals'] is None: return False
        return ref.same_set(l['intervals'], ref.intersect([ref.sig_set(n, p) for n, p in s]))
    return l['intervals'] is None
def multi(ps, qs):
    """values vs printed: a perfect matching exists (small sets)"""
    def ok(p, q): return all(x in p and ref.close2(p[x], q[x]) for x in q) and set(q) == set(p)
    return perfect([[ok(p, q) for q in qs] for p in ps])
def perfect(M):
    """bipartite perfect matching of a square boolean matrix"""
    n = len(M); to = [-1] * n
    if any(len(r) != n for r in M): return False
    def aug(i, seen):
        for j in range(n):
            if M[i][j] and j not in seen:
                seen.add(j)
                if to[j] < 0 or aug(to[j], seen): to[j] = i; return True
        return False
    return all(aug(i, set()) for i in range(n))


def judge(ctx, text, kt, d):
    lines = text.split('\n')
    m = re.fullmatch(r'The fit kernel consists of (\d+) components:', lines[0])
    if not ctx.check(bool(m), 'header', text=text, **d): return
    body = lines[1:]
    ctx.check(int(m.group(1)) == len(body) and all(l.startswith('\t') for l in body), 'component-count-in-header', text=text, **d)
    want = expected(kt)
    if not ctx.check(len(body) == len(want), 'number-of-lines', text=text, expected=len(want), **d): return
    try: ps = [ref.parse_component(l) for l in body]
    except (ValueError, KeyError) as x: ctx.fail('unreadable-line', error=str(x), text=text, **d); return
    for p in ps:
        ctx.ev('lines parsed')
        if p['intervals'] is not None: ctx.ev('with intervals')
        if p['intervals'] == []: ctx.ev('nowhere')
        if len(p['bases'].get('LIN', [])) > 1: ctx.ev('polynomial')
        if len(p['bases'].get('PER', [])) > 1: ctx.ev('several periodic')
    M = [[line_match(p, c) for c in want] for p in ps]
    bad = [body[i] for i, r in enumerate(M) if not any(r)]
    ctx.check(not bad, 'line-describes-no-component', lines=bad[:3], components=[c for j, c in enumerate(want) if not any(r[j] for r in M)][:4], text=text, **d)
    ctx.check(bool(bad) or perfect(M), 'lines-and-components-not-one-to-one', text=text, components=want, **d)
    return ps


def case(i, rng, ctx):
    while True:
        t = expression(rng, 14)
        if ncomp(t) <= 40: break
    d = dict(expr=ref.to_str(t))
    if i % 8 == 0:
        from GPy_ABCD.Models.model import GPModel
        X = np.arange(4.)[:, None]
        with ctx.total('GPModel', **d): m = GPModel(X, np.sin(X), gen.root(t)); m.fit(0)
        try: m.model.randomize()
        except np.linalg.LinAlgError: return
        with ctx.total('interpret', **d): text = m.interpret(); again = m.interpret()
        ctx.check(text == again, 'text-changes-when-asked-again', first=text, second=again, **d)
        kt = ref.ktree(m.model.kern); ctx.ev('model.interpret')
        vals = m.model.param_array.tolist()
    else:
        kt, e, k, d = absorbed(rng, ctx, t, **d)
        vals = d['params']
        with ctx.total('get_interpretation', **d): text = e.get_interpretation()
    ps = judge(ctx, text, kt, d)
    if ps and (len(ps) > 1 or sum(len(x) for x in ps[0]['bases'].values()) > 1): ctx.nontrivial((t, tuple(vals)))
    if i < 3: ctx.sample(text)
