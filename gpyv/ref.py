"""Independent reference model. Expressions are nested tuples: a base name, ('+', ...), ('*', ...), ('CP', l, r), ('CW', l, r).
Nothing in here calls the code under test except `tup`/`ktree`, which only read the live objects."""
import re
from collections import Counter
import numpy as np
from scipy.special import ive
from scipy.stats import norm as _gauss

BASES = ('WN', 'C', 'LIN', 'SE', 'PER')
SIGS = ('S', 'Sr', 'SI', 'SIr')
NPAR = {'WN': 1, 'C': 1, 'LIN': 2, 'SE': 2, 'PER': 3}
CH = ('CP', 'CW')


# ---------------------------------------------------------------- canonical form

def key(t): return repr(t)

def norm(t, lin_absorbs_c=True):
    """canonical form of a raw tree: flatten, drop singleton wrappers, apply the documented identities"""
    if isinstance(t, str): return t
    if t[0] in CH: return (t[0], norm(t[1], lin_absorbs_c), norm(t[2], lin_absorbs_c))
    ch = []
    for c in t[1:]:
        c = norm(c, lin_absorbs_c)
        if not isinstance(c, str) and c[0] == t[0]: ch += list(c[1:])
        else: ch.append(c)
    b = Counter(c for c in ch if isinstance(c, str)); comp = [c for c in ch if not isinstance(c, str)]
    if t[0] == '+':
        for k in ('WN', 'C'): b[k] = min(b[k], 1)
        if b['LIN'] and lin_absorbs_c: b['C'] = 0
    elif b['WN']:
        b = Counter({'WN': 1, 'LIN': b['LIN']})
    else:
        if b['C']: b['C'] = 1 if sum(b.values()) + len(comp) == b['C'] else 0
        b['SE'] = min(b['SE'], 1)
    ch = sorted(list((+b).elements()) + comp, key=key)
    return ch[0] if len(ch) == 1 else (t[0],) + tuple(ch)

def sort_t(t):
    """order commutative children only (no simplification)"""
    if isinstance(t, str): return t
    if t[0] in CH: return (t[0], sort_t(t[1]), sort_t(t[2]))
    return (t[0],) + tuple(sorted((sort_t(c) for c in t[1:]), key=key))

def root_form(t): return ('+', t) if isinstance(t, str) else t  # a lone base kernel is a one-term sum

def is_canonical(t):
    t = t[1] if not isinstance(t, str) and t[0] == '+' and len(t) == 2 and isinstance(t[1], str) else t
    return norm(t) == t

def size(t): return 1 if isinstance(t, str) else 1 + sum(size(c) for c in t[1:])
def depth(t): return 0 if isinstance(t, str) else 1 + max([depth(c) for c in t[1:]] or [0])
def leaves(t):
    if isinstance(t, str): yield t
    else:
        for c in t[1:]: yield from leaves(c)
def to_str(t):
    if isinstance(t, str): return t
    if t[0] in CH: return f'{t[0]}({to_str(t[1])}, {to_str(t[2])})'
    return '(' + (' %s ' % t[0]).join(to_str(c) for c in t[1:]) + ')'


# ---------------------------------------------------------------- reading live expression objects

def is_change(k): return hasattr(k, 'CP_or_CW')
def kind(k):
    if is_change(k): return k.CP_or_CW
    return {'SumKE': '+', 'ProductKE': '*'}[type(k).__name__]
def kids(k):
    if isinstance(k, str): return []
    return [k.left, k.right] if is_change(k) else list(k.base_terms.elements()) + list(k.composite_terms)
def tup(k):
    """live expression -> tuple with ordered commutative children, no simplification"""
    if isinstance(k, str): return k
    ch = [tup(c) for c in kids(k)]
    return (kind(k),) + tuple(ch if is_change(k) else sorted(ch, key=key))
def unwrap(t):
    while not isinstance(t, str) and t[0] in '+*' and len(t) == 2: t = t[1]
    return t
def comp_kids(k): return [c for c in kids(k) if not isinstance(c, str)]

def integrity(root):
    """parent/root links and no shared nodes below `root`; list of problems"""
    bad, seen = [], set()
    def go(n, parent, d):
        if d > 200: bad.append('cycle'); return
        if id(n) in seen: bad.append('shared node ' + str(n))
        seen.add(id(n))
        if n.parent is not parent: bad.append(f'parent of {n} is {"None" if n.parent is None else str(n.parent)}')
        if n.root is not root: bad.append(f'root of {n} is {"None" if n.root is None else str(n.root)}')
        for c in comp_kids(n): go(c, n, d + 1)
    go(root, None, 0)
    return bad

def nodes(k):
    res = [k]
    for c in comp_kids(k): res += nodes(c)
    return res


# ---------------------------------------------------------------- parsing printed expressions

def parse(s):
    """readable string -> raw tuple (usual precedence; CP/CW as binary functions)"""
    toks = re.findall(r'[A-Za-z]+|[()+*,]', s)
    if re.sub(r'[A-Za-z]+|[()+*,]|\s', '', s): raise ValueError('odd characters')
    pos = 0
    def peek(): return toks[pos] if pos < len(toks) else None
    def eat(x=None):
        nonlocal pos
        t = peek()
        if t is None or (x is not None and t != x): raise ValueError(f'expected {x} at {pos} in {s}')
        pos += 1; return t
    def expr():
        ts = [term()]
        while peek() == '+': eat(); ts.append(term())
        return ts[0] if len(ts) == 1 else ('+',) + tuple(ts)
    def term():
        fs = [fac()]
        while peek() == '*': eat(); fs.append(fac())
        return fs[0] if len(fs) == 1 else ('*',) + tuple(fs)
    def fac():
        t = eat()
        if t == '(':
            e = expr(); eat(')'); return e
        if t in CH:
            eat('('); l = expr(); eat(','); r = expr(); eat(')'); return (t, l, r)
        if t not in BASES: raise ValueError(f'token {t}')
        return t
    e = expr()
    if pos != len(toks): raise ValueError('trailing tokens')
    return e


# ---------------------------------------------------------------- combination operators & grammar (on raw tuples, unsimplified)

def bases_of(S): return [c for c in S[1:] if isinstance(c, str)]
def _minus(S, b):
    l = list(S[1:]); l.remove(b); return (S[0],) + tuple(l)
def o_add(S, B):
    """all results of adding, nested variants included"""
    s0, b0 = kindof(S), kindof(B)
    main = ('+',) + (S[1:] if s0 == '+' else (S,)) + (B[1:] if b0 == '+' else (B,))
    res = [main]
    for P, b in ((S, B), (B, S)):
        if kindof(P) == '*' and isinstance(b, str):
            res += [_minus(P, x) + (('+', b, x),) for x in bases_of(P)]
    return res
def o_mul(S, B):
    s0, b0 = kindof(S), kindof(B)
    main = ('*',) + (S[1:] if s0 == '*' else (S,)) + (B[1:] if b0 == '*' else (B,))
    res = [main]
    for P, b in ((S, B), (B, S)):
        if kindof(P) == '+' and isinstance(b, str):
            res += [_minus(P, x) + (('*', b, x),) for x in bases_of(P)]
    return res
def kindof(t): return 's' if isinstance(t, str) else t[0]
def o_swap(S, B):
    if isinstance(S, str): return [B]
    if S[0] in CH:
        return ([(S[0], B, S[2])] if isinstance(S[1], str) and S[1] != B else []) + ([(S[0], S[1], B)] if isinstance(S[2], str) and S[2] != B else [])
    return [_minus(S, b) + (B,) for b in set(bases_of(S)) if b != B]
def o_change(S, T, ops): # T None: both sides S
    return [c for o in ops for c in ([(o, S, S)] if T is None else [(o, S, T), (o, T, S)])]
def o_remove(S):
    if isinstance(S, str): return []
    if S[0] in CH: return [S[1], S[2]]
    if len(S) <= 2: return []
    return [(S[0],) + S[1:i] + S[i + 1:] for i in range(1, len(S))]
L2, L3 = ('*', 'LIN', 'LIN'), ('*', 'LIN', 'LIN', 'LIN')
def o_higher(S):
    if isinstance(S, str): return []
    if S[0] in CH:
        return ([(S[0], x, S[2]) for x in (L2, L3)] if isinstance(S[1], str) else []) + ([(S[0], S[1], x) for x in (L2, L3)] if isinstance(S[2], str) else [])
    nose = (S[0],) + tuple(c for c in S[1:] if c != 'SE')
    if S[0] == '+': return [nose + (x,) for x in (L2, L3)]
    return [nose + x[1:] for x in (L2, L3)] + [nose + (('PER',) if 'PER' in S[1:] else ('PER', 'PER'))]

PB = ('WN', 'C', 'LIN', 'PER')          # base kernels used by the grammar in the default configuration
NC = ('WN', 'LIN', 'PER')
RULES = {
    'plus_base': lambda S, pb: [r for B in pb for r in o_add(S, B)],
    'times_base': lambda S, pb: [r for B in pb if B != 'C' for r in o_mul(S, B)],
    'replace_base': lambda S, pb: [r for B in pb for r in o_swap(S, B)],
    'change_new_base': lambda S, pb: [r for B in pb if B != 'C' for r in o_change(S, B, CH)],
    'change_same': lambda S, pb: o_change(S, None, CH),
    'change_point_linear': lambda S, pb: o_change(S, 'LIN', ('CP',)),
    'change_window_constant': lambda S, pb: o_change(S, 'C', ('CW',)),
    'change_window_linear': lambda S, pb: o_change(S, 'LIN', ('CW',)),
    'times_shifted_base': lambda S, pb: [r for B in pb if B != 'C' for r in o_mul(S, ('+', B, 'C'))],
    'replace_with_singleton': lambda S, pb: list(pb),
    'remove_some_term': lambda S, pb: o_remove(S),
    'try_higher_curves': lambda S, pb: o_higher(S),
}
GROUPS = {
    'Original_ABCD': ['plus_base', 'times_base', 'replace_base', 'change_same', 'change_window_constant', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term'],
    'Minimal': ['plus_base', 'times_base', 'replace_base', 'change_same'],
    'Default': ['plus_base', 'times_base', 'replace_base', 'change_point_linear', 'change_window_linear', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term'],
    'All': list(RULES),
}

def positions(t):
    """(node, rebuild) for every node of a canonical root: composites, plus each bare branch of a change operator as a one-term sum"""
    def go(n, put, leaf):
        yield (n, put)
        for i in range(1, len(n)):
            c = n[i]
            def sub(x, n=n, i=i, put=put): return put(n[:i] + (x,) + n[i + 1:])
            if isinstance(c, str):
                if n[0] in CH: yield (('+', c), sub)
            else: yield from go(c, sub, False)
    yield from go(root_form(t), lambda x: x, False)

def neighbours(t, rules, pb=PB, lin_absorbs_c=True):
    """the set of canonical expressions one rule application away, at any node"""
    res = set()
    for n, put in positions(t):
        for r in rules:
            for x in RULES[r](n, pb): res.add(norm(put(x), lin_absorbs_c))
    return res

def n_params(t):
    """free parameters of the compiled covariance: one variance per product of base kernels"""
    if isinstance(t, str): return NPAR[t]
    if t[0] in CH: return n_params(t[1]) + n_params(t[2]) + (1 if t[0] == 'CP' else 2)
    if t[0] == '+': return sum(n_params(c) for c in t[1:])
    b = bases_of(t)
    return sum(NPAR[x] - 1 for x in b) + (1 if b else 0) + sum(n_params(c) for c in t[1:] if not isinstance(c, str))


# ---------------------------------------------------------------- covariance formulas

SLOPE = 0.5
def sig(x, l, s): a = (x - l) / s; return (1 + a / (1 + np.abs(a))) / 2
def sigma(name, p, x):
    """value in [0, 1] of the (un)reversed sigmoid or indicator at x"""
    s = p.get('slope', SLOPE)
    if name in ('S', 'Sr'): r = sig(x, p['location'], s)
    else:
        h = p['width'] / (2 * s)
        # sig((x-l)/s) + sig(-(x-l-w)/s) - 1 over its height at the centre
        r = (sig(x, p['location'], s) + sig(x, p['location'] + p['width'], -s) - 1) / (h / (1 + h))
    return 1 - r if name in ('Sr', 'SIr') else r

def kbase(b, p, X, Z=None):
    """covariance between column vectors X and Z (Z None: of X with itself)"""
    same = Z is None
    if same: Z = X
    D = X - Z.T; v = p.get('variance', 1.)
    if b == 'WN': return v * np.eye(len(X)) if same else np.zeros(D.shape)
    if b == 'C': return v * np.ones(D.shape)
    if b == 'LIN': o = p.get('offset', 0.); return v * (X - o) * (Z - o).T
    if b == 'SE': return v * np.exp(-.5 * (D / p['lengthscale']) ** 2)
    if b == 'PER':
        c = np.cos(2 * np.pi * D / p['period'])
        if p['lengthscale'] > 1e4: return v * c
        u = 1 / p['lengthscale'] ** 2
        if u < 1e-3:  # series in u: the closed form cancels
            num = c * (1 + 0 * u) + u * (c * c / 2 - .25) + u * u * c ** 3 / 6 + u ** 3 * (c ** 4 / 24 - 1 / 64)
            den = 1 + u * (.5 - .25) + u * u / 6 + u ** 3 * (1 / 24 - 1 / 64)
            return v * num / den
        e = ive(0, u)
        if u > 1e5: return v * (np.exp((c - 1) * u) - e) / (1 - e)
        return v * (np.exp((c - 1) * u) - e) / (1 - e)
    if b == 'STDPER': # full standard periodic
        return v * np.exp(-.5 * (np.sin(np.pi * D / p['period']) / p['lengthscale']) ** 2)
    if b in SIGS: return v * sigma(b, p, X) * sigma(b, p, Z).T
    raise KeyError(b)


# ---------------------------------------------------------------- reading compiled kernels

KCLASS = {'White': 'WN', 'Bias': 'C', 'RBF': 'SE', 'LinearWithOffset': 'LIN', 'Linear': 'LIN', 'PureStdPeriodicKernel': 'PER', 'StdPeriodic': 'STDPER'}

def f(x): return float(np.asarray(x).reshape(-1)[0])
def ktree(k):
    """compiled kernel -> ('base', name, params) | ('+', parts) | ('*', parts) | ('CP'|'CW', left, right, params)"""
    n = type(k).__name__
    if n in KCLASS:
        p = {a: f(getattr(k, a)) for a in ('variance', 'offset', 'lengthscale', 'period') if hasattr(k, a)}
        return ('base', KCLASS[n], p)
    if n == 'Add': return ('+', [ktree(p) for p in k.parts])
    if n == 'Prod': return ('*', [ktree(p) for p in k.parts])
    if 'ChangePoint' in n or 'ChangeWindow' in n:
        p = {a: f(getattr(k, a)) for a in ('location', 'slope', 'width', 'shift_variance') if hasattr(k, a)}
        return (('CP' if 'ChangePoint' in n else 'CW'), ktree(k.parts[0]), ktree(k.parts[1]), p)
    raise KeyError(n)
def kshape(kt):
    """structure of a compiled kernel as an ordered tuple"""
    if kt[0] == 'base': return 'PER' if kt[1] == 'STDPER' else kt[1]
    if kt[0] in CH: return (kt[0], kshape(kt[1]), kshape(kt[2]))
    return (kt[0],) + tuple(sorted((kshape(c) for c in kt[1]), key=key))
def keval(kt, X, Z=None):
    if kt[0] == 'base': return kbase(kt[1], kt[2], X, Z)
    if kt[0] == '+': return sum(keval(c, X, Z) for c in kt[1])
    if kt[0] == '*':
        r = 1.
        for c in kt[1]: r = r * keval(c, X, Z)
        return r
    a, b = ('Sr', 'S') if kt[0] == 'CP' else ('SIr', 'SI')
    rev = kt[3].get('rev', kt[3])  # 'rev': separate parameters of the reversed sigmoid, to differentiate by one of the two only
    if 'shift_variance' in kt[3]:  # configuration variant: the side after the window is the first kernel plus a constant
        after = {**rev, 'location': rev['location'] + rev['width']}
        A = keval(kt[1], X, Z)
        return A * kbase('Sr', rev, X, Z) + keval(kt[2], X, Z) * kbase('SI', kt[3], X, Z) + (A + kt[3]['shift_variance']) * kbase('S', after, X, Z)
    return keval(kt[1], X, Z) * kbase(a, rev, X, Z) + keval(kt[2], X, Z) * kbase(b, kt[3], X, Z)
def kdiag(kt, X):
    return np.array([keval(kt, X[i:i + 1])[0, 0] for i in range(len(X))])


# ---------------------------------------------------------------- sum of products, from the compiled kernel

def components(kt):
    """[(variance, {base: [params]}, [(sigmoid, params)])], every product distributed over every sum and change operator"""
    if kt[0] == 'base': return [(kt[2].get('variance', 1.), {kt[1]: [{k: v for k, v in kt[2].items() if k != 'variance'}]}, [])]
    if kt[0] == '+': return [c for p in kt[1] for c in components(p)]
    if kt[0] == '*':
        acc = [(1., {}, [])]
        for p in kt[1]:
            acc = [(v * w, _join(a, b), s + z) for (v, a, s) in acc for (w, b, z) in components(p)]
        return acc
    a, b = ('Sr', 'S') if kt[0] == 'CP' else ('SIr', 'SI')
    return [(v, bs, s + [(a, kt[3])]) for v, bs, s in components(kt[1])] + [(v, bs, s + [(b, kt[3])]) for v, bs, s in components(kt[2])]
def _join(a, b):
    r = {k: list(v) for k, v in a.items()}
    for k, v in b.items(): r[k] = r.get(k, []) + list(v)
    return r
def simplify_component(c):
    v, bs, s = c
    bs = dict(bs)
    if 'WN' in bs: bs = {k: x for k, x in bs.items() if k in ('WN', 'LIN')}; bs['WN'] = [{}]
    elif 'C' in bs:
        if len(bs) == 1: bs['C'] = [{}]
        else: del bs['C']
    if 'SE' in bs and len(bs['SE']) > 1:
        l = min(p['lengthscale'] for p in bs['SE']); bs['SE'] = [{'lengthscale': l * sum((l / p['lengthscale']) ** 2 for p in bs['SE']) ** -.5 if l > 0 else l}]
    return (v, bs, s)
def ceval(c, X, Z=None):
    v, bs, s = c
    r = v * np.ones((len(X), len(X if Z is None else Z)))
    for b, ps in bs.items():
        for p in ps: r = r * kbase(b, p, X, Z)
    for b, p in s: r = r * kbase(b, p, X, Z)
    return r


# ---------------------------------------------------------------- absorbed parameters of live expressions

def aeval(k, X, Z=None):
    """covariance of a live expression from the parameters it absorbed"""
    if is_change(k):
        cp = k.parameters[k.CP_or_CW][0]
        def br(side, e):
            if isinstance(e, str): return kbase(e, k.parameters[(side, e)][0], X, Z)
            return aeval(e, X, Z)
        a, b = ('Sr', 'S') if k.CP_or_CW == 'CP' else ('SIr', 'SI')
        return br('left', k.left) * kbase(a, cp, X, Z) + br('right', k.right) * kbase(b, cp, X, Z)
    ms = [kbase(b, p, X, Z) for b, ps in k.parameters.items() if b != 'ProductKE' for p in ps] + [aeval(c, X, Z) for c in k.composite_terms]
    shape = (len(X), len(X if Z is None else Z))
    if kind(k) == '+': return sum(ms, np.zeros(shape))
    r = np.ones(shape)
    for m in ms: r = r * m
    if 'ProductKE' in k.parameters and k.parameters['ProductKE']: r = r * k.parameters['ProductKE'][0]['variance']
    return r
def absorbed_values(k):
    """every numeric value absorbed anywhere in the tree"""
    res = [float(v) for ps in k.parameters.values() for p in ps for v in p.values() if v is not None]
    for c in comp_kids(k): res += absorbed_values(c)
    return res


# ---------------------------------------------------------------- intervals

INF = float('inf')
def sig_set(name, p):
    """the region a sigmoid factor stands for, as a list of (lo, hi)"""
    l = p['location']
    if name == 'S': return [(l, INF)]
    if name == 'Sr': return [(-INF, l)]
    if name == 'SI': return [(l, l + p['width'])]
    return [(-INF, l), (l + p['width'], INF)]
def intersect(sets):
    acc = [(-INF, INF)]
    for s in sets: acc = [(max(a, c), min(b, d)) for a, b in acc for c, d in s if max(a, c) < min(b, d)]
    return sorted(acc)


# ---------------------------------------------------------------- interpretation text

NUM = r'(-?\d+\.\d\d|-?inf|nan)'
def parse_component(line):
    """one component description -> {'bases': {b: [params]}, 'var': v, 'intervals': None | [(lo, hi, slopes)]}"""
    s = line.strip()
    m = re.match(rf'(.*)(, and it|; this component) has overall variance {NUM}$', s)
    if not m: raise ValueError('no variance clause: ' + s)
    body, joiner, var = m.group(1), m.group(2), float(m.group(3))
    bases, intervals = {}, None
    if '; this component applies ' in body:
        body, iv = body.split('; this component applies ')
        intervals = parse_intervals(iv)
    if (intervals is not None) != (joiner == ', and it'): raise ValueError('variance joiner: ' + s)
    def num_list(txt): return [float(x) for x in re.findall(NUM, txt)]
    # first term
    m = (re.match(rf'Uncorrelated noise', body) or re.match('A constant', body))
    if m:
        bases['WN' if m.group(0).startswith('Unc') else 'C'] = [{}]
    elif m := re.match(rf'A smooth function with lengthscale {NUM}', body): bases['SE'] = [{'lengthscale': float(m.group(1))}]
    elif m := re.match(rf'A periodic function with period {NUM} and lengthscale {NUM}', body): bases['PER'] = [{'period': float(m.group(1)), 'lengthscale': float(m.group(2))}]
    elif m := re.match(rf'A periodic function with main period {NUM} and lengthscale {NUM}, then (modulated by another periodic function of|repeatedly modulated by (\d+) more periodic functions \(by decreasing period\) of)((?:,? ?(?:and )?period {NUM} and lengthscale {NUM})+)', body):
        rest = re.findall(rf'period {NUM} and lengthscale {NUM}', m.group(5))
        if (int(m.group(4)) if m.group(4) else 1) != len(rest): raise ValueError('periodic count: ' + s)
        ps = [(float(m.group(1)), float(m.group(2)))] + [(float(a), float(b)) for a, b in rest]
        if any(a[0] < b[0] for a, b in zip(ps, ps[1:])): raise ValueError('periods not decreasing: ' + s)
        bases['PER'] = [{'period': a, 'lengthscale': b} for a, b in ps]
    elif m := re.match(rf'A linear function(?: with horizontal offset {NUM})?', body): bases['LIN'] = [{'offset': float(m.group(1))} if m.group(1) else {}]
    if not m:
        m = re.match(rf'A polynomial function of order (\d+)(?: with roots ((?:(?:, )?(?:and )?{NUM})+))?', body)
        if not m: raise ValueError('first term: ' + s)
        bases['LIN'] = [{'offset': x} for x in num_list(m.group(2))] if m.group(2) else [{}] * int(m.group(1))
        if len(bases['LIN']) != int(m.group(1)): raise ValueError('polynomial order: ' + s)
    elif m.group(0) == 'A linear function' and False: pass
    rest = body[m.end():]
    while rest:
        if m := re.match(rf', whose shape changes smoothly with lengthscale {NUM}', rest): bases.setdefault('SE', []).append({'lengthscale': float(m.group(1))})
        elif m := re.match(rf', with linearly varying amplitude(?: with horizontal offset {NUM})?', rest): bases.setdefault('LIN', []).append({'offset': float(m.group(1))} if m.group(1) else {})
        elif m := re.match(rf', with polynomially varying amplitude of order (\d+)(?: with roots ((?:(?:, )?(?:and )?{NUM})+))?', rest):
            l = [{'offset': x} for x in num_list(m.group(2))] if m.group(2) else [{}] * int(m.group(1))
            if len(l) != int(m.group(1)): raise ValueError('polynomial order: ' + s)
            bases.setdefault('LIN', []).extend(l)
        else: raise ValueError('modifier: ' + rest)
        rest = rest[m.end():]
    return {'bases': bases, 'var': var, 'intervals': intervals}
def parse_intervals(txt):
    if txt.strip() == 'nowhere': return []
    res, n = [], 0
    parts = re.split(r', (?:and )?(?=from|until|between)|^and ', txt)
    for p in parts:
        p = p.strip()
        if not p: continue
        sl = None
        if m := re.search(rf' \(with (?:same )?change slopes? {NUM}(?: and {NUM})?\)$', p):
            sl = tuple(float(x) for x in m.groups() if x); p = p[:m.start()]
        if m := re.fullmatch(rf'from {NUM}', p): res.append((float(m.group(1)), INF, sl))
        elif m := re.fullmatch(rf'until {NUM}', p): res.append((-INF, float(m.group(1)), sl))
        elif m := re.fullmatch(rf'between {NUM} and {NUM}', p): res.append((float(m.group(1)), float(m.group(2)), sl))
        else: raise ValueError('interval: ' + txt)
    return res
def close2(a, b):
    """b is a correctly rounded 2-decimal rendering of a"""
    if a != a or b != b: return a != a and b != b
    return abs(a - b) <= .005 * (1 + 1e-6) + 1e-9 * abs(a)
def same_set(text_ints, true_ints, tol=.0051):
    """regions agree except within tol of a boundary"""
    cuts = sorted({x for a, b, *_ in list(text_ints) + list(true_ints) for x in (a, b) if abs(x) != INF})
    pts = ([cuts[0] - 1] + [(a + b) / 2 for a, b in zip(cuts, cuts[1:]) if b - a > 2 * tol] + [cuts[-1] + 1]) if cuts else [0.]
    inside = lambda S, x: any(a < x < b for a, b, *_ in S)
    return all(inside(text_ints, x) == inside(true_ints, x) for x in pts)


# ---------------------------------------------------------------- Gaussian process regression

JIT = 1e-8
def gp(kt, noise, X, Y):
    K = keval(kt, X) + (noise + JIT) * np.eye(len(X))
    L = np.linalg.cholesky(K)
    a = np.linalg.solve(L.T, np.linalg.solve(L, Y))
    ll = -.5 * float((Y * a).sum()) - Y.shape[1] * np.log(np.diag(L)).sum() - .5 * Y.size * np.log(2 * np.pi)
    return ll, L, a
def gp_predict(kt, noise, X, Y, Z, full=False, lik=True, part=None, noise_out=None):
    """part: a kernel to predict by other than the model's own (e.g. one of its terms); noise_out: another noise for the outputs"""
    ll, L, a = gp(kt, noise, X, Y)
    kp = kt if part is None else part
    Ks = keval(kp, X, Z)
    mu = Ks.T @ a
    V = np.linalg.solve(L, Ks)
    cov = keval(kp, Z) - V.T @ V
    var = np.diag(cov)[:, None].copy()
    if noise_out is None: noise_out = noise
    if lik: cov = cov + noise_out * np.eye(len(Z)); var = var + noise_out
    return mu, (cov if full else var)
def gp_quantiles(mu, var, qs): return [mu + np.sqrt(var) * _gauss.ppf(q / 100.) for q in qs]
