"""Grammar expansion."""
from gpyv import ref, gen
from gpyv.snap import snap
from GPy_ABCD import production_rules, production_rules_by_type
from GPy_ABCD.KernelExpansion.grammar import expand
from GPy_ABCD.KernelExpansion import grammar as G
from GPy_ABCD.KernelExpressions.all import ChangeKE

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: expansion results compared for exact set equality with an independent grammar over tuples, with uniqueness, canonicity, link and immutability checks'
RULE = ('a case is a random canonical expression expanded with one rule, a random rule subset, or a shipped rule group; the returned set must be exactly the expressions one '
        'rule application away at any node; distinct by (tree, rules); non-trivial = at least 2 positions')
N = {'quick': 5000, 'thorough': 24000}
MIN = {'monitor_checks': 10000, 'neighbours compared': 60000, **{f'rule:{r}': 60 for r in ref.RULES}, **{f'group:{g}': 15 for g in ref.GROUPS}, 'leaf positions': 200, 'expanded again after growth': 100}
TYPES = {'basic': ['plus_base', 'times_base', 'replace_base'], 'change': ['change_new_base', 'change_same', 'change_point_linear', 'change_window_constant', 'change_window_linear'],
         'heuristic': ['times_shifted_base', 'replace_with_singleton', 'remove_some_term', 'try_higher_curves']}  # the exported dictionary of rules by type
FN = {r: f for d in production_rules_by_type.values() for r, f in d.items()}


def compare(ctx, what, t, k, rules, fs, d):
    s0 = snap(k)
    with ctx.total('expand', **d): es = expand(k, fs)
    got = [ref.tup(e) for e in es]
    exp = {ref.root_form(x) for x in ref.neighbours(t, rules)}
    g = set(got)
    ctx.ev('neighbours compared', len(exp))
    ctx.check(len(g) == len(got), f'{what}:duplicates', dup=[ref.to_str(x) for x in g if got.count(x) > 1][:3], **d)
    ctx.check(g <= exp, f'{what}:not-one-step-away', extra=[ref.to_str(x) for x in sorted(g - exp, key=ref.size)][:4], **d)
    ctx.check(exp <= g, f'{what}:missing', missing=[ref.to_str(x) for x in sorted(exp - g, key=ref.size)][:4], **d)
    ctx.check(snap(k) == s0, f'{what}:expanded-expression-modified', **d)
    for e in es:
        ctx.ev('monitor_checks')
        if not ref.is_canonical(ref.tup(e)): ctx.fail(f'{what}:not-canonical', result=repr(e), **d)
        if e.parent is not None or e.root is not e: ctx.fail(f'{what}:not-a-root', result=repr(e), **d)
    # a repeated expansion returns the same set (no hidden state)
    return g


def again(ctx, t, fs, rng, g, d):
    """the neighbours are independent of every other expansion: growing the ones of a first expansion does not show in the ones of a second one"""
    ctx.ev('expanded again after growth')
    k = gen.root(t)
    with ctx.total('expand', **d): es = expand(k, fs)
    kept = rng.sample(es, min(len(es), 3)); before = [ref.tup(e) for e in kept]
    for e in es:
        if any(e is x for x in kept): continue
        n = rng.choice(ref.nodes(e))
        if isinstance(n, ChangeKE): n.left = 'WN'
        else: n.new_base([rng.choice(ref.PB)] * rng.randint(1, 2))
    ctx.check([ref.tup(e) for e in kept] == before, 'neighbours-share-parts', **d)
    ctx.check(ref.tup(k) == t, 'neighbour-shares-parts-with-the-expanded', got=repr(k), **d)
    with ctx.total('expand again', **d): g2 = {ref.tup(e) for e in expand(gen.root(t) if rng.random() < .5 else k, fs)}
    ctx.check(g2 == g, 'expansion-depends-on-earlier-results', diff=[ref.to_str(x) for x in g ^ g2][:4], **d)


def setup(ctx):
    missing = sorted(set(ref.RULES) - set(FN))
    ctx.check(not missing, 'rules-by-type:missing', missing=missing, got=sorted(FN))
    for r in missing:  # the rest is still judged, with the rule of that name in the module
        if hasattr(G, r): FN[r] = getattr(G, r)
    for ty, rs in TYPES.items():
        ctx.check(ty in production_rules_by_type and all(getattr(f, '__name__', r) == r for r, f in production_rules_by_type[ty].items()) and set(rs) <= set(production_rules_by_type[ty]), f'rules-by-type:{ty}',
                  got={k: list(v) for k, v in production_rules_by_type.items()}, expected=rs)
    for g, rs in ref.GROUPS.items():
        ctx.check(g in production_rules, f'group-missing:{g}', got=list(production_rules))
        ctx.check(sorted(f.__name__ for f in production_rules[g]) == sorted(rs), f'group-contents:{g}', got=[f.__name__ for f in production_rules[g]], expected=rs)


def case(i, rng, ctx):
    t = gen.canon(rng, 9 if i % 3 else 14, ext=.01)
    k = gen.root(t)
    m = i % 4
    if m == 0: g = rng.choice(list(ref.GROUPS)); rules = ref.GROUPS[g]; fs = production_rules[g]; ctx.ev('group:' + g)
    elif m == 1: rules = rng.sample(list(ref.RULES), rng.randint(2, 4)); fs = [FN[r] for r in rules]
    else: rules = [rng.choice(list(ref.RULES))]; fs = [FN[r] for r in rules]
    for r in rules: ctx.ev('rule:' + r)
    pos = list(ref.positions(t))
    ctx.ev('leaf positions', sum(1 for n, _ in pos if len(n) == 2))
    if len(pos) >= 2: ctx.nontrivial((t, rules))
    if i < 3: ctx.sample(f'{k} by {rules}')
    d = dict(expr=repr(k), rules=rules)
    g = compare(ctx, 'expansion' if m < 2 else 'rule ' + rules[0], t, k, rules, fs, d)
    if i % 7 == 0: again(ctx, t, fs, rng, g, d)
    if i % 5 == 0:
        with ctx.total('second expand', **d): g2 = {ref.tup(e) for e in expand(k, list(reversed(fs)))}
        ctx.check(g2 == g, 'expansion-depends-on-rule-order-or-history', diff=[ref.to_str(x) for x in g ^ g2][:4], **d)
        # at a single node
        n = rng.choice(ref.nodes(k))
        if not (hasattr(G, 'roots') and hasattr(G, 'expand_node')): return
        with ctx.total('expand_node', node=repr(n), **d): gn = {ref.tup(e) for e in G.roots(G.expand_node(n, fs))}
        ctx.check(gn <= g, 'node-expansion-outside-expansion', extra=[ref.to_str(x) for x in gn - g][:4], **d)
