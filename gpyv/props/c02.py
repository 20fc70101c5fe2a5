"""Structural equality."""
from copy import deepcopy
from gpyv import ref, gen

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: equality relation compared with a reference canonical form on pairs/triples of live trees, incl. near-miss mutants'
RULE = ('a case is a canonical tree, rebuilt shuffled/regrouped (must compare equal) and mutated once (leaf swap, multiplicity, branch order, operator, dropped term: '
        'must compare unequal iff the canonical forms differ), plus an unrelated tree; distinct by canonical tree; non-trivial = at least one composite operand')
N = {'quick': 16000, 'thorough': 250000}
MIN = {'monitor_checks': 50000, 'equal pairs': 5000, 'unequal pairs': 5000, 'near-miss unequal': 3000, 'embedded': 2000, 'grown': 2000}


def mutate(t, rng):
    """one small structural change somewhere"""
    if isinstance(t, str): return rng.choice([b for b in ref.BASES if b != t])
    i = rng.randrange(1, len(t))
    m = rng.random()
    if m < .5: return t[:i] + (mutate(t[i], rng),) + t[i + 1:]
    if t[0] in ref.CH:
        return rng.choice([(t[0], t[2], t[1]), ('CW' if t[0] == 'CP' else 'CP',) + t[1:], (t[0], t[1], t[1]), (t[0], t[2], t[2])])
    if m < .65: return t + (t[i],)
    if m < .8 and len(t) > 3: return t[:i] + t[i + 1:]
    if m < .9: return ('*' if t[0] == '+' else '+',) + t[1:]
    return t + (rng.choice(ref.BASES),)


def case(i, rng, ctx):
    t = gen.canon(rng)
    ctx.nontrivial(t) if ref.depth(t) >= 2 else None
    if i < 3: ctx.sample(ref.to_str(t))
    vs = [t, gen.shuffled(rng, t), gen.regrouped(rng, t)]
    m1 = mutate(t, rng); m2 = mutate(m1, rng)
    vs += [m1, gen.shuffled(rng, m1), m2, gen.canon(rng)]
    fs = [ref.root_form(ref.norm(v)) for v in vs]
    with ctx.total('building', trees=[ref.to_str(v) for v in vs]):
        ks = []
        for v in vs:
            k = gen.build(v)
            if isinstance(k, str): k = gen.build(ref.root_form(v))
            ks.append(gen.standard(k._initialise()))
    for a in range(len(ks)):
        for b in range(len(ks)):
            want = fs[a] == fs[b]
            with ctx.total('comparison', a=str(ks[a]), b=str(ks[b])):
                got = ks[a] == ks[b]; ne = ks[a] != ks[b]
            ctx.ev('equal pairs' if want else 'unequal pairs')
            if not want and (a < 3) and 3 <= b <= 4: ctx.ev('near-miss unequal')
            ctx.check(got is True if want else got is False, 'equal-reported-unequal' if want else 'unequal-reported-equal', a=repr(ks[a]), b=repr(ks[b]))
            ctx.check(ne == (not want), 'inequality-operator', a=repr(ks[a]), b=repr(ks[b]))
    # membership, as used for duplicate removal, and position independence
    ctx.check((ks[1] in [ks[3], ks[5], ks[0]]), 'membership', a=repr(ks[1]))
    with ctx.total('comparison with other types'):
        ctx.check(not (ks[0] == None) and not (ks[0] == 'LIN') and not (ks[0] == 3) and not (ks[0] == str(ks[0])), 'equal-to-foreign-type', a=repr(ks[0]))
    # the same expression equals itself wherever it sits in a larger tree, and copies equal originals
    with ctx.total('embedding', tree=ref.to_str(t)):
        from GPy_ABCD import ChangeKE
        host = ChangeKE('CW', ks[0], 'PER')._initialise()
        emb = host.left
        c = deepcopy(ks[0])
    if not isinstance(emb, str):
        ctx.ev('embedded')
        ctx.check(emb == ks[0] and ks[0] == emb, 'position-dependent', a=repr(ks[0]))
    ctx.check(c == ks[0], 'copy-unequal', a=repr(ks[0]))
    c.parameters['anything'] = [{'variance': 2.}]
    ctx.check(c == ks[0], 'parameters-affect-equality', a=repr(ks[0]))
    # nor do previous operations: grown expressions are compared as they now are
    e = deepcopy(ks[0])
    if not ref.is_change(e):
        b, u = rng.choice(ref.BASES), rng.choice(ks[3:])
        with ctx.total('growing', a=repr(ks[0]), base=b, other=repr(u)):
            if rng.random() < .5: e.new_base(b); w = ref.root_form(ref.norm(ref.tup(e)))
            else: e.new_composite(u); w = ref.root_form(ref.norm(ref.tup(e)))
            e = gen.standard(e._initialise()); o = gen.build(w); o = gen.build(ref.root_form(w)) if isinstance(o, str) else o; o = gen.standard(o._initialise())
            got, back, old = e == o, o == e, e == ks[0]
        ctx.ev('grown')
        ctx.check(got is True and back is True, 'grown-unequal', a=repr(e), b=repr(o))
        ctx.check(old == (w == fs[0]), 'grown-compared-as-before', a=repr(e), b=repr(ks[0]))
