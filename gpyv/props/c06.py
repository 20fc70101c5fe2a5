"""Combination operators."""
from gpyv import ref, gen
from gpyv.snap import snap
from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
from GPy_ABCD.KernelExpansion.kernelExpressionOperations import add, multiply, swap_base, one_change, both_changes, replace_node, remove_a_term, higher_curves

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: every operator result compared with an independent tuple-rewriting reference, with before/after snapshots of both arguments'
RULE = ('a case draws two operands (base string, sum, product, change operator; roots or inner nodes of larger trees; possibly the same object twice) and applies every '
        'operator; result sets are compared up to canonical form with the reference; distinct by (operand, operand); non-trivial = at least one composite operand')
N = {'quick': 12000, 'thorough': 200000}
MIN = {'monitor_checks': 30000, **{f'pair:{a}{b}': 40 for a in 's+*c' for b in 's+*c'}}


def operand(rng):
    if rng.random() < .25:
        b = rng.choice(ref.BASES); return b, b
    t = gen.canon(rng, 18)
    k = gen.root(t)
    if rng.random() < .4:
        k = rng.choice(ref.nodes(k))
    return k, ref.tup(k)


def forms(ks): return {ref.norm(ref.tup(k)) for k in ks}
def want(ts): return {ref.norm(t) for t in ts}
def kk(t): return {'CP': 'c', 'CW': 'c'}.get(ref.kindof(t), ref.kindof(t))


def case(i, rng, ctx):
    (S, s), (B, b) = operand(rng), operand(rng)
    if rng.random() < .05: B, b = S, s
    ctx.ev(f'pair:{kk(s)}{kk(b)}')
    if not (isinstance(s, str) and isinstance(b, str)): ctx.nontrivial((s, b))
    if i < 3: ctx.sample(f'{S} ; {B}')
    before = snap(S), snap(B)
    desc = dict(S=repr(S), B=repr(B))
    def comp(name, got, exp):
        with ctx.total('reading result of ' + name, **desc): g = forms(got)
        ctx.check(g == want(exp), f'{name}:wrong-results', extra=sorted(map(ref.to_str, g - want(exp)))[:4], missing=sorted(map(ref.to_str, want(exp) - g))[:4], **desc)
        ctx.check((snap(S), snap(B)) == before, f'{name}:argument-modified', **desc)
    with ctx.total('add', **desc): r, r1 = add(S, B), add(S, B, False)
    comp('add', r, ref.o_add(s, b)); comp('add-plain', [r1], ref.o_add(s, b)[:1])
    with ctx.total('multiply', **desc): r, r1 = multiply(S, B), multiply(S, B, False)
    comp('multiply', r, ref.o_mul(s, b)); comp('multiply-plain', [r1], ref.o_mul(s, b)[:1])
    for op in ref.CH:
        with ctx.total('one_change', **desc): r, r0 = one_change(S, op, B), one_change(S, op)
        comp('one_change', r, ref.o_change(s, b, (op,))); comp('one_change-same', r0, ref.o_change(s, None, (op,)))
    with ctx.total('both_changes', **desc): r, r0 = both_changes(S, B), both_changes(S)
    comp('both_changes', r, ref.o_change(s, b, ref.CH)); comp('both_changes-same', r0, ref.o_change(s, None, ref.CH))
    base = rng.choice(ref.BASES)
    with ctx.total('swap_base', base=base, **desc): r = swap_base(S, base)
    comp('swap_base', r, ref.o_swap(s, base))
    with ctx.total('replace_node', **desc): r = replace_node(S, B)
    comp('replace_node', r, [b])
    if not isinstance(S, str):
        with ctx.total('remove_a_term', **desc): r = remove_a_term(S)
        comp('remove_a_term', r, ref.o_remove(s))
        with ctx.total('higher_curves', **desc): r = higher_curves(S)
        comp('higher_curves', r, ref.o_higher(s))
