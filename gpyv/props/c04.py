"""Tree integrity and isolation over histories of operations."""
from copy import deepcopy
import pickle
from gpyv import ref, gen
from gpyv.snap import snap
from GPy_ABCD import SumKE, ProductKE, ChangeKE, production_rules
from GPy_ABCD.KernelExpansion.grammar import expand, make_simple_kexs, start_kernels
from GPy_ABCD.KernelExpansion.kernelExpressionOperations import add, multiply, swap_base, both_changes, remove_a_term, higher_curves

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: complete object-graph snapshots (structure, multiplicity, identity, links, parameters) of every live expression around each operation of random histories, plus node-ownership and parent/root link checks'
RULE = ('a case is a history of 6-14 operations (expansion by rule subsets, construction from live expressions, combination operators, in-place growth, deep copies, '
        'pickling, subtree replacement, printing, compilation, queries) over a pool of live expressions; distinct by final pool; non-trivial = the history expanded something')
N = {'quick': 900, 'thorough': 12000}
MIN = {'monitor_checks': 30000, 'op:expand': 500, 'op:construct': 200, 'op:grow': 200, 'op:combine': 200, 'op:subtree': 200, 'op:copy': 200, 'op:observe': 200, 'owned nodes compared': 10000, 'trees relinked': 60}


def owned(roots):
    o = {}
    for r in roots:
        for n in ref.nodes(r): o.setdefault(id(n), set()).add(id(r))
    return o


def relink(rng, ctx, e, d):
    """Initialising a tree whose links were not kept (built or edited by hand) restores them all, and the self-check tells."""
    inner = [n for n in ref.nodes(e) if n is not e]
    if not inner: return
    bad = rng.sample(inner, rng.randint(1, len(inner))); ctx.ev('trees relinked'); t = ref.tup(e)
    for n in bad: n.parent = rng.choice([None, e if n.parent is not e else None, deepcopy(n)])
    for n in rng.sample(inner, rng.randint(0, len(inner))): n.root = rng.choice([n, None, inner[0]])
    if hasattr(e, '_check_all_parents'): ctx.check(not e._check_all_parents(), 'broken-links-not-noticed', broken=[repr(n) for n in bad], **d)
    e._initialise()
    ctx.check(ref.integrity(e) == [] and (ref.tup(e) == t or not ref.is_canonical(t)), 'initialising-leaves-broken-links', broken=[repr(n) for n in bad], problems=ref.integrity(e)[:3], **d)


def case(i, rng, ctx):
    pool = [gen.root(gen.canon(rng, 14, ext=.01)) for _ in range(rng.randint(2, 3))]
    if rng.random() < .3: pool += start_kernels['Default'][:3]
    desc, expanded = [], False
    rules = production_rules['All']
    for step in range(rng.randint(6, 14)):
        snaps = [snap(k) for k in pool]
        a, b = rng.choice(pool), rng.choice(pool)
        op = rng.choice(['expand', 'expand', 'expand', 'construct', 'grow', 'combine', 'subtree', 'copy', 'observe'])
        d = dict(a=repr(a), b=repr(b), op=op, history=desc[-4:])
        new, raw = [], []   # new: fresh trees that must be isolated; raw: operator results allowed to reuse their arguments' nodes
        touched = None
        with ctx.total(op, **d):
            if op == 'expand':
                rs = rng.choice([rng.sample(rules, rng.randint(1, 3)), production_rules['Default'], [rng.choice(rules)]])
                d['rules'] = [r.__name__ for r in rs]
                new = expand(a, rs); expanded = True
            elif op == 'construct':
                n = rng.choice(ref.nodes(b))
                new = [rng.choice([lambda: SumKE(['PER'], [a, n]), lambda: ProductKE(['LIN', 'SE'], [a, n]), lambda: ChangeKE('CP', a, n), lambda: ChangeKE('CW', n, n),
                                   lambda: SumKE([], [n]), lambda: ProductKE([], [a, a])])()._initialise()]
            elif op == 'grow':
                k = rng.randrange(len(pool)); touched = k
                t = pool[k]
                if ref.is_change(t): touched = None
                else:
                    if rng.random() < .5: t.new_base(rng.choice(['PER', 'LIN', ['PER', 'SE']]))
                    else: t.new_composite(rng.choice([b, [b], ref.nodes(b)[-1]]))
                    t._initialise()
            elif op == 'combine':
                n = rng.choice(ref.nodes(b))
                raw = rng.choice([lambda: add(a, n), lambda: multiply(a, n), lambda: swap_base(n, 'SE'), lambda: both_changes(a, n), lambda: remove_a_term(n), lambda: higher_curves(n), lambda: multiply(n, 'PER')])()
            elif op == 'subtree':
                n = rng.choice(ref.nodes(a))
                r = rng.choice([SumKE(['PER', 'WN']), ProductKE(['PER', 'LIN']), ChangeKE('CP', 'LIN', 'PER')])
                s0 = snap(r)
                res = n.new_tree_with_self_replaced(r)
                ctx.check(snap(r) == s0, 'replacement-modified', **d)
                ctx.check(ref.tup(res) == ref.tup(r), 'replacement-differs', got=ref.tup(res), expected=ref.tup(r), **d)
                def put(k, t): # expected whole tree: n's position replaced
                    if k is n: return ref.tup(r)
                    if isinstance(k, str): return k
                    ch = [put(c, t) for c in ref.kids(k)]
                    return (ref.kind(k),) + tuple(ch if ref.is_change(k) else sorted(ch, key=ref.key))
                ctx.check(ref.tup(res.root) == put(a, r), 'subtree-replacement-wrong-tree', got=ref.tup(res.root), expected=put(a, r), replaced=repr(n), **d)
                new = [res.root]
            elif op == 'copy':
                how = rng.choice(['deepcopy', 'deepcopy-node', 'pickle'])
                if how == 'deepcopy': new = [deepcopy(a)]
                elif how == 'pickle': new = [pickle.loads(pickle.dumps(a))]
                else: new = [deepcopy(rng.choice(ref.nodes(a))).root]
                ctx.check(new[0] == a and ref.tup(new[0]) == ref.tup(a), 'copy-differs', how=how, **d)
            else:
                str(a); repr(a); a == b; a.traverse(); a.reduce(lambda n, acc: acc + 1, 0); a.contains_base(['PER']); a.is_stationary(); a.to_kernel(); make_simple_kexs([deepcopy(a)])
                b in pool; a.term_count() if not ref.is_change(a) else None; getattr(a, '_check_all_parents', bool)(); a.is_root()
                if rng.random() < .5: relink(rng, ctx, deepcopy(a), d)
        ctx.ev('op:' + op); desc.append(f'{op} {a} {d.get("rules", "")}')
        # nothing that was alive changed (the one grown in place excepted)
        for j, (k, s) in enumerate(zip(pool, snaps)):
            if j == touched: continue
            if k is pool[touched] if touched is not None else False: continue
            ctx.check(snap(k) == s, f'live-expression-modified:{op}', before=s, after=snap(k), **d)
        # fresh trees are well-linked and own their nodes
        o = owned(pool); seen = {}
        for e in new:
            pr = ref.integrity(e)
            ctx.check(pr == [], f'broken-links:{op}', result=repr(e), problems=pr[:3], **d)
            ctx.check(e.is_root() and getattr(e, '_check_all_parents', lambda: True)(), f'link-self-check:{op}', result=repr(e), **d)
            for n in ref.nodes(e):
                ctx.ev('owned nodes compared')
                if id(n) in o: ctx.fail(f'node-shared-with-live-expression:{op}', result=repr(e), node=repr(n), **d)
                if seen.setdefault(id(n), id(e)) != id(e): ctx.fail(f'node-shared-between-results:{op}', result=repr(e), node=repr(n), **d)
        if touched is not None:
            pr = ref.integrity(pool[touched])
            ctx.check(pr == [], 'broken-links:grow', result=repr(pool[touched]), problems=pr[:3], **d)
            ctx.check(ref.is_canonical(ref.tup(pool[touched])) or len(ref.tup(pool[touched])) == 2, 'grown-not-canonical', result=repr(pool[touched]), **d)
        for r in raw: ctx.check(hasattr(r, 'parent') or isinstance(r, str), 'operator-result-type', result=repr(r), **d)
        for e in new:
            if ref.size(ref.tup(e)) <= 30 and len(pool) < 9 and rng.random() < (.15 if len(new) > 3 else .7): pool.append(e)
        # in-place mutation of a fresh result must not show anywhere else
        if new and rng.random() < .5:
            snaps = [snap(k) for k in pool]
            e = rng.choice(new)
            mine = next((j for j, k in enumerate(pool) if k is e), None)
            leafs = [n for n in ref.nodes(e) if not ref.is_change(n)]
            if leafs:
                with ctx.total('mutating result', **d): rng.choice(leafs).new_base(['PER', 'PER'])
                for j, (k, s) in enumerate(zip(pool, snaps)):
                    if j != mine: ctx.check(snap(k) == s, f'aliased-with-result:{op}', mutated=repr(e), other=repr(k), **d)
                if mine is not None: pool.pop(mine)
        while len(pool) < 2: pool.append(gen.root(gen.canon(rng, 10)))
        pool = [k for k in pool if ref.size(ref.tup(k)) <= 60] or [gen.root(gen.canon(rng, 10))]
    if expanded: ctx.nontrivial(tuple(ref.tup(k) for k in pool))
    if i < 2: ctx.sample(' ; '.join(desc)[:390])
