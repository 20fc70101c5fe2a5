"""Structural queries."""
from collections import Counter
from gpyv import ref, gen

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: answers of the query methods compared with a reference computed from the tree alone'
RULE = ('a case is a random canonical expression; contains_base (every base, every pair), is_stationary, traverse, reduce, term_count, is_root are compared with the '
        'reference at the root and at every inner node; distinct by tree; non-trivial = contains a change operator or depth >= 2')
N = {'quick': 22000, 'thorough': 300000}
MIN = {'monitor_checks': 100000, 'stationary': 500, 'not stationary': 2000, 'raw change leaf visited': 2000, 'grown': 3000}


def expected_nodes(t):
    """every composite node, and every bare branch of a change operator as a one-term sum"""
    res = [t]
    for c in t[1:]:
        if not isinstance(c, str): res += expected_nodes(c)
        elif t[0] in ref.CH: res.append(('+', c))
    return res
def has_change(t): return not isinstance(t, str) and (t[0] in ref.CH or any(has_change(c) for c in t[1:]))


def case(i, rng, ctx):
    t = gen.canon(rng, 40)
    if has_change(t) or ref.depth(t) >= 2: ctx.nontrivial(t)
    if i < 3: ctx.sample(ref.to_str(t))
    root = gen.root(t)
    queries(ctx, rng, root, d0=dict())
    if i % 3 == 0:  # answers are for the expression as it is now, also after it grew
        grown = []
        for _ in range(rng.randint(1, 2)):
            n = rng.choice(ref.nodes(root))
            if ref.is_change(n): side = rng.choice(['left', 'right']); setattr(n, side, rng.choice(ref.BASES)) if isinstance(getattr(n, side), str) else None
            else:
                with ctx.total('new_base', root=repr(root)): n.new_base(rng.choice([rng.choice(ref.BASES), [rng.choice(ref.BASES), rng.choice(ref.BASES)]]))
            grown.append(repr(n)); ctx.ev('grown')
        queries(ctx, rng, root, d0=dict(grown=grown))


def queries(ctx, rng, root, d0):
    for k in ref.nodes(root)[:6]:
        u = ref.tup(k); lv = set(ref.leaves(u))
        d = dict(node=repr(k), root=repr(root), **d0)
        with ctx.total('queries', **d):
            for b in ref.BASES: ctx.check(bool(k.contains_base(b)) == (b in lv), 'contains_base', base=b, **d)
            for _ in range(3):
                bs = rng.sample(ref.BASES, rng.randint(1, 3))
                ctx.check(bool(k.contains_base(bs)) == bool(lv & set(bs)), 'contains_base-list', bases=bs, **d)
            st = not has_change(u) and 'LIN' not in lv
            ctx.ev('stationary' if st else 'not stationary')
            ctx.check(bool(k.is_stationary()) == st, 'is_stationary', expected=st, **d)
            tr = k.traverse()
            exp = Counter(expected_nodes(u))
            ctx.check(Counter(ref.tup(n) for n in tr) == exp, 'traverse', got=[str(n) for n in tr], expected=list(exp.elements()), **d)
            ctx.check(tr[0] is k and all(n.root is root for n in tr), 'traverse-links', **d)
            live = {id(n) for n in ref.nodes(k)}
            fresh = [n for n in tr if id(n) not in live]
            ctx.ev('raw change leaf visited', len(fresh))
            ctx.check(live <= {id(n) for n in tr} and all(ref.is_change(n.parent) for n in fresh), 'traverse-identity', **d)
            seen = []
            r = k.reduce(lambda n, acc: seen.append(ref.tup(n)) or acc + 1, 0)
            ctx.check(Counter(seen) == exp and r == sum(exp.values()), 'reduce', got=seen, expected=list(exp.elements()), result=r, **d)
            if not ref.is_change(k): ctx.check(k.term_count() == len(u) - 1, 'term_count', got=k.term_count(), **d)
            ctx.check(k.is_root() == (k is root), 'is_root', **d)
