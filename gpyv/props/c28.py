"""Collection utilities."""
import itertools
from collections import Counter
from gpyv import ref, gen
from GPy_ABCD.Util import genericUtil as U
from GPy_ABCD.Util.kernelUtil import sortOutTypePair

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: the collection helpers behind the search compared with naive definitions on random collections of hashable, unhashable and expression elements'
RULE = ('a case draws collections of numbers, lists or kernel expressions with repetitions and applies every collection helper, comparing results with naive definitions and checking that the arguments are unchanged; distinct by collections; '
        'non-trivial = repetitions present')
N = {'quick': 20000, 'thorough': 400000}
MIN = {'monitor_checks': 250000, 'expression elements': 400, 'with repetitions': 5000, 'cyclic graphs': 1000, 'acyclic graphs': 1000, 'repeated dependencies': 500, 'long collections': 50}


class Box:
    """unhashable element equal by value, with its own identity"""
    def __init__(self, v, tag=''): self.v, self.tag = v, tag
    def __eq__(self, o): return isinstance(o, Box) and self.v == o.v
    __hash__ = None
    def __repr__(self): return f'Box({self.v}{self.tag})'

def same(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def case(i, rng, ctx):
    kind = rng.choice(['int', 'box', 'list', 'mixed', 'kex', 'kex'] if i % 4 == 0 else ['int', 'box', 'list', 'mixed'])
    m = rng.choice([1, 3, 6])
    if kind == 'kex':
        ts = [gen.canon(rng, 9, lambda r: gen.raw(r, rng.choice([1, 2, 2]), maxw=3)) for _ in range(m)]; mk = lambda: gen.root(gen.shuffled(rng, rng.choice(ts))); ctx.ev('expression elements')
    else: mk = {'int': lambda: rng.randint(0, m), 'box': lambda: Box(rng.randint(0, m), rng.choice(['', '', '~'])), 'mixed': lambda: rng.choice([int, float, str, bool])(rng.randint(0, m)), 'list': lambda: [rng.randint(0, m)]}[kind]
    xs = [mk() for _ in range(rng.choice([0, 1, 2, 5, 9]))]; ys = [mk() for _ in range(rng.choice([0, 1, 2, 5, 9]))]
    if i % 150 == 7:  # long collections
        m = rng.choice([3, 40, 200]); xs = [mk() for _ in range(rng.randint(60, 300))] if kind != 'kex' else xs; ys = [mk() for _ in range(rng.randint(60, 300))] if kind != 'kex' else ys
        ctx.ev('long collections', kind != 'kex')
    if rng.random() < .4: ys = xs[:]; rng.shuffle(ys)
    if rng.random() < .3 and ys: ys = ys[:-1] + [mk()]
    xs0, ys0 = list(xs), list(ys)
    d = dict(xs=xs, ys=ys, kind=kind)
    uniq = []
    for x in xs:
        if not any(x == u for u in uniq): uniq.append(x)
    if len(uniq) < len(xs): ctx.ev('with repetitions'); ctx.nontrivial((repr(xs), repr(ys)))
    def left(a, b):
        a = list(a)
        for y in b:
            for j, x in enumerate(a):
                if x is y or x == y: del a[j]; break
        return a
    with ctx.total('collections', **d):
        ctx.check(same(U.unique(xs), uniq), 'unique', got=U.unique(xs), **d)
        ctx.check(same(U.unique(iter(xs)), uniq), 'unique-of-iterator', **d)
        ctx.check(U.eq_elems(xs, ys) is (not left(xs, ys) and len(xs) == len(ys)), 'eq_elems', got=U.eq_elems(xs, ys), **d)
        ctx.check(U.eq_elems(xs, ys) is U.eq_elems(ys, xs), 'eq_elems-asymmetric', **d)
        ctx.check(same(U.diff(xs, ys), left(xs, ys)), 'diff', got=U.diff(xs, ys), want=left(xs, ys), **d)
        ll = [xs, ys, xs[:2], []]
        ctx.check(same(U.flatten(ll), [x for l in ll for x in l]), 'flatten', **d)
        p = rng.choice([lambda x: bool(xs) and x == xs[0], lambda x: len(repr(x)) % 2 == 0, lambda x: True, lambda x: len(repr(x)) % 3, lambda x: repr(x)[1:2], lambda x: [0] * (len(repr(x)) % 2), lambda x: None if len(repr(x)) > 3 else 5])
        a, b = U.partition(p, xs)
        ctx.check(same(a, [x for x in xs if p(x)]) and same(b, [x for x in xs if not p(x)]), 'partition', got=(a, b), **d)
        g = U.group_by(lambda x: len(repr(x)), xs)
        ctx.check(set(g) == {len(repr(x)) for x in xs} and all(same(g[k], [x for x in xs if len(repr(x)) == k]) for k in list(g)), 'group_by', **d)
        n = rng.randint(1, 4)
        ch = list(U.chunk(xs, n))
        ctx.check(same(U.flatten(ch), xs) and all(len(c) == n for c in ch[:-1]) and all(0 < len(c) <= n for c in ch), 'chunk', got=ch, n=n, **d)
        ctx.check(U.first(p, xs, 'none') is next((x for x in xs if p(x)), 'none') or not xs, 'first', **d)
        z = [(x, j) for j, x in enumerate(xs)]
        if z:
            u = U.unzip(z); l = list(U.unzip_lazy(z))
            ctx.check(same(u[0], xs) and u[1] == list(range(len(xs))) and same(l[0], xs), 'unzip', got=u, **d)
        ctx.check(same(xs, xs0) and same(ys, ys0), 'arguments-modified', **d)
    # hashable variants, dictionaries, intervals, folds
    hs, ks = [rng.randint(0, 5) for _ in range(rng.randint(0, 7))], [rng.randint(0, 5) for _ in range(rng.randint(0, 7))]
    d = dict(hs=hs, ks=ks)
    with ctx.total('other helpers', **d):
        ctx.check(U.unique_h(hs) == set(hs) and U.diff_h(hs, ks) == set(hs) - set(ks) and U.eq_elems_h(hs, ks) == (set(hs) == set(ks)), 'hashable-variants', **d)
        d0 = {k: [k] for k in hs}; d1 = {k: [-k - 1] for k in ks}
        want = {k: (d0.get(k, []) + d1.get(k, [])) for k in set(d0) | set(d1)}
        r = U.update_dict_with({k: list(v) for k, v in d0.items()}, d1, lambda x, y: x + y)
        ctx.check(r == want and d1 == {k: [-k - 1] for k in ks}, 'update_dict_with', got=r, want=want, **d)
        (a, b), (c, e) = sorted([rng.randint(-4, 4), rng.randint(-4, 4)]), sorted([rng.randint(-4, 4), rng.randint(-4, 4)])
        ov = sum(1 for x in range(-5, 5) if a <= x < b and c <= x < e)
        ctx.check(U.interval_overlap((a, b), (c, e)) == ov, 'interval_overlap', intervals=((a, b), (c, e)), got=U.interval_overlap((a, b), (c, e)))
        m1, m2 = {k: k for k in hs}, {k: -k for k in ks}
        zm = dict(U.zip_maps(m1, m2)) if True else None
        ctx.check(zm == {k: (k, -k) for k in set(hs) & set(ks)}, 'zip_maps', got=zm, **d)
        o = [hs, ks]
        ctx.check(U.on(lambda a, b: a - b, o, len) == len(hs) - len(ks) and U.on_m(lambda a, b: (a, b), o, 'count', 3) == (hs.count(3), ks.count(3)) and U.on_a(lambda a, b: a is b, o, '__class__') is True, 'on', **d)
        # fold with condition and update: consume evens, halving the rest each time
        acc, rest = U.foldq(lambda acc, x: acc + [x], lambda acc, x, l: [y + 1 for y in l], lambda x: x % 2 == 0, hs, [])
        sim, sacc = list(hs), []
        while True:
            j = next((j for j, x in enumerate(sim) if x % 2 == 0), None)
            if j is None: break
            sacc.append(sim.pop(j)); sim = [y + 1 for y in sim]
        ctx.check(acc == sacc and rest == sim, 'foldq', got=(acc, rest), want=(sacc, sim), **d)
        # graphs
        nn = rng.randint(1, 6); names = list('abcdef')[:nn]; rng.shuffle(names)
        deps = {x: [y for y in names if y != x and rng.random() < .3] for x in names}
        if rng.random() < .5: deps = {x: [y for y in v if names.index(y) < names.index(x)] for x, v in deps.items()}
        if rng.random() < .3: deps = {x: v + [y for y in v if rng.random() < .5] for x, v in deps.items()}; ctx.ev('repeated dependencies', any(len(set(v)) < len(v) for v in deps.values()))
        if rng.random() < .05: deps[names[0]] = deps[names[0]] + [rng.choice([names[0], 'unknown'])]
        tuples = list(deps.items()); rng.shuffle(tuples)
        ok, done = True, set()
        while len(done) < nn:
            nx = [x for x in names if x not in done and set(deps[x]) <= done]
            if not nx: ok = False; break
            done |= set(nx)
        ctx.ev('acyclic graphs' if ok else 'cyclic graphs')
        try:
            s = U.topological_sort(tuples)
            ctx.check(ok and sorted(s) == sorted(names) and all(s.index(y) < s.index(x) for x in names for y in deps[x]), 'topological_sort', got=s, graph=deps)
        except ValueError: ctx.check(not ok, 'topological_sort-refuses-acyclic', graph=deps)
        t1, t2 = rng.choice([1, 'a', 2.5]), rng.choice([1, 'a', 2.5])
        sp = sortOutTypePair(t1, t2)
        ctx.check(sp == ({type(t1): [t1, t2]} if type(t1) is type(t2) else {type(t1): t1, type(t2): t2}), 'sortOutTypePair', got=sp)
    if i < 3: ctx.sample((xs, ys))
