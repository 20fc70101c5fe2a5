"""Workload generators: raw expression trees and ways of assembling them with the public classes."""
from collections import Counter
from gpyv.ref import BASES, CH, norm, root_form


def raw(rng, d, change=.3, maxw=4, bases=BASES, wrap=.2):
    """raw (unsimplified) tree of depth <= d"""
    if d <= 0 or rng.random() < .22: return rng.choice(bases)
    r = rng.random()
    if r < change: return (rng.choice(CH), raw(rng, d - 1, change, maxw, bases, wrap), raw(rng, d - 1, change, maxw, bases, wrap))
    op = rng.choice('+*')
    if rng.random() < wrap: return (op, raw(rng, d - 1, change, maxw, bases, wrap))
    n = rng.choice([2, 2, 2, 3, 3, maxw])
    return (op,) + tuple(raw(rng, d - 1, change, maxw, bases, wrap) for _ in range(n))

def extreme(rng, products=True):
    """very wide, very repetitive or very deep shapes"""
    b = lambda: rng.choice(BASES)
    def wide(): return ('+',) + tuple(rng.choice([('*', 'LIN', b()), ('*', 'PER', 'SE'), ('CP', b(), b()), ('CW', 'LIN', 'PER'), b()]) for _ in range(rng.randint(10, 14)))
    def factors(): return ('*',) + tuple(rng.choice([('+', 'PER', b()), ('CP', b(), b()), ('CW', b(), b()), b()]) for _ in range(rng.randint(10, 13)))
    def powers(): return (rng.choice('+*'),) + ('LIN',) * rng.randint(9, 14) + ('PER',) * rng.choice([0, 0, 2, 11])
    def same(): return ('+',) + (rng.choice([('CP', 'LIN', 'PER'), ('*', 'LIN', 'LIN'), ('CW', ('+', 'PER', 'WN'), 'LIN')]),) * rng.randint(10, 13)
    def deep():
        t = b(); change = rng.random()
        for j in range(rng.randint(8, 13)): t = (rng.choice(CH),) + ((t, b()) if rng.random() < .5 else (b(), t)) if rng.random() < change else ('+*'[j % 2],) + tuple(rng.sample([t, b()], 2))
        return t
    return rng.choice([wide, powers, same, deep] + [factors] * products)()

def flavour(rng):
    """a random shape of workload: plain, deep, wide, few bases (hence many repetitions), change-heavy, change-free, now and then extreme"""
    if rng.random() < .015: return extreme(rng)
    return rng.choice([
        lambda: raw(rng, rng.choice([1, 2, 2, 3])),
        lambda: raw(rng, rng.choice([3, 4]), maxw=3),
        lambda: raw(rng, 2, maxw=6),
        lambda: raw(rng, 3, bases=rng.sample(BASES, 2)),
        lambda: raw(rng, 2, bases=(rng.choice(BASES), rng.choice(BASES)), change=0, maxw=6),
        lambda: raw(rng, 3, change=.7),
        lambda: raw(rng, 3, change=0.),
        lambda: raw(rng, 4, wrap=.7, maxw=2),
        lambda: (rng.choice('+*'),) + tuple([raw(rng, 2)] * 2 + [raw(rng, 1)]),
        lambda: (rng.choice(CH),) + (raw(rng, 2),) * 2,
    ])()

def composite(rng, gen=flavour):
    while True:
        t = gen(rng)
        if not isinstance(t, str): return t

def canon(rng, maxsize=25, gen=flavour, ext=None, **kw):
    """canonical root tuple; ext: share of extreme ones, whatever the size asked for"""
    from gpyv.ref import size
    if ext is None: ext = .015 if maxsize >= 16 else 0
    if ext and rng.random() < ext: return root_form(norm(extreme(rng)))
    while True:
        t = root_form(norm(gen(rng, **kw)))
        if size(t) <= maxsize: return t

def shuffled(rng, t):
    """same expression, commutative operands reordered"""
    if isinstance(t, str): return t
    ch = [shuffled(rng, c) for c in t[1:]]
    if t[0] not in CH: rng.shuffle(ch)
    return (t[0],) + tuple(ch)

def regrouped(rng, t):
    """same expression, with associative regrouping and redundant singleton wrappers"""
    if isinstance(t, str):
        while rng.random() < .15: t = (rng.choice('+*'), t)
        return t
    ch = [regrouped(rng, c) for c in t[1:]]
    if t[0] in CH: return (t[0],) + tuple(ch)
    rng.shuffle(ch)
    while len(ch) > 2 and rng.random() < .5:
        k = rng.randint(2, len(ch) - 1)
        ch = [(t[0],) + tuple(ch[:k])] + ch[k:]
        rng.shuffle(ch)
    r = (t[0],) + tuple(ch)
    while rng.random() < .1: r = (rng.choice('+*'), r)
    return r

def build(t):
    """plain construction through the public classes"""
    from GPy_ABCD import SumKE, ProductKE, ChangeKE
    if isinstance(t, str): return t
    if t[0] in CH: return ChangeKE(t[0], build(t[1]), build(t[2]))
    ch = [build(c) for c in t[1:]]
    return (SumKE if t[0] == '+' else ProductKE)([c for c in ch if isinstance(c, str)], [c for c in ch if not isinstance(c, str)])

def build_any(t, rng):
    """construction by a random mixture of constructor argument forms"""
    from GPy_ABCD import SumKE, ProductKE, ChangeKE
    if isinstance(t, str): return t
    ch = [build_any(c, rng) for c in t[1:]]
    if t[0] in CH: return ChangeKE(t[0], *ch)
    cls = SumKE if t[0] == '+' else ProductKE
    b, c = [x for x in ch if isinstance(x, str)], [x for x in ch if not isinstance(x, str)]
    m = rng.random()
    if m < .5 or not (b or c): return cls(b, c)
    if m < .75: return cls(Counter(b), c)
    if not c: return cls(b)
    return cls(b, c).simplify()

def root(t):
    """initialised standard root expression for a canonical tuple"""
    k = build(root_form(t))
    return k._initialise()

def standard(k):
    """the grammar's own standardisation of a root, if it still has one"""
    from GPy_ABCD.KernelExpansion import grammar as g
    f = getattr(g, 'standardise_singleton_root', None)
    if f: return f(k)
    r = getattr(g, 'roots', None)
    return r([k])[0] if r else root(norm(_tup(k)))
def _tup(k):
    from gpyv.ref import tup
    return tup(k)


# numeric inputs

def inputs(rng, np, n=None, kinds=('unif', 'grid', 'wide', 'tight', 'neg', 'far')):
    n = n or rng.choice([1, 2, 3, 5, 8])
    k = rng.choice(kinds)
    X = {'unif': lambda: np.random.uniform(-5, 5, n), 'grid': lambda: np.linspace(-3, 3, n), 'wide': lambda: np.random.uniform(-100, 100, n),
         'tight': lambda: np.random.uniform(-.1, .1, n), 'neg': lambda: -np.random.exponential(3, n), 'far': lambda: 50 + np.random.randn(n)}[k]()
    X = np.round(X, 6)
    if rng.random() < .2 and n > 1: X[1] = X[0]
    if rng.random() < .5: X = np.sort(X)
    return X[:, None].astype(float)

def positive(rng, wide=True):
    r = rng.random()
    if r < .6: return round(rng.uniform(.1, 5), 3)
    if r < .8: return round(10 ** rng.uniform(-1, 1), 4)
    return round(10 ** (rng.uniform(-1.5, 3) if wide else rng.uniform(-.7, .7)), 5)

def set_one(k, rng, np):
    """change a single parameter value (a slope more often than the others) of a compiled kernel, all the others as they are"""
    ps = [p for p in k.flattened_parameters if p.size]; sl = [p for p in ps if p.name == 'slope']
    p = rng.choice(sl if sl and rng.random() < .4 else ps); i = rng.randrange(p.size)
    with np.errstate(all='ignore'): v = float(p.values.flat[i])
    p[i] = round(v + rng.choice([-1, 1]) * rng.uniform(.3, 2), 4) if p.name in ('location', 'offset', 'stop_location') else round(v * rng.choice([rng.uniform(.3, .8), rng.uniform(1.2, 2.5)]), 5) or .1
    return p.hierarchy_name()


def set_params(k, rng, np, wide=True, loc=5.):
    """distinct random values for every free parameter of a compiled kernel, through its public parameter objects"""
    ties = {} if rng.random() < .12 else None  # now and then, few distinct values
    for p in k.flattened_parameters:
        n = p.name
        for i in range(p.size):
            if ties and ties.get(n) and rng.random() < .7: p[i] = rng.choice(ties[n]); continue
            if n in ('location', 'offset', 'stop_location'): v = round(rng.uniform(-loc, loc), 4)
            elif n == 'width': v = round(rng.choice([rng.uniform(.2, 6), rng.uniform(.01, .5), rng.uniform(5, 50)]), 4)
            elif n == 'period': v = round(rng.choice([rng.uniform(.3, 8), 10 ** rng.uniform(-.5, 2)]), 4)
            elif n == 'lengthscale': v = round(rng.choice([rng.uniform(.3, 4), 10 ** rng.uniform(-1, 1), 10 ** (rng.uniform(-1.3, 3.5) if wide else rng.uniform(-.5, .5))]), 5)
            elif n == 'slope': v = round(rng.uniform(.05, 2), 4)
            else: v = positive(rng, wide)
            p[i] = v
            if ties is not None: ties.setdefault(n, []).append(v)
