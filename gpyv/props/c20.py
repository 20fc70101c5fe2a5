"""Model lifecycle over histories."""
import contextlib, io, pickle
import numpy as np
from copy import deepcopy
from gpyv import ref, gen, models
from gpyv.snap import snap
from gpyv.props.c15 import expected, live_component, comp_match
from gpyv.props.c16 import judge
from GPy_ABCD import BIC, AIC, fit_kex, SumKE
from GPy_ABCD.Models.model import GPModel

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: histories of fits, refits, descriptions, scores, predictions and copies of several models checked after every step against the current fit and against snapshots of everything that must not change'
RULE = ('a case is a history of 5-12 steps over 2-3 models (some sharing one expression object): fit, refit, describe, canonical form, score, predict, copy, pickle, use before fit; after every step all descriptions must be of the current '
        'parameters and expressions, data and other models must be unchanged; distinct by history; non-trivial = a refit followed by a description')
N = {'quick': 1200, 'thorough': 12000}
MIN = {'monitor_checks': 8000, 'step:fit': 200, 'step:describe': 200, 'step:score': 150, 'step:predict': 150, 'step:copy': 100, 'before fit': 150, 'described after refit': 60, 'fit_kex': 25, 'new data': 100, 'new data before refit': 60, 'new expression': 100, 'values permuted by refit': 40}


def form_ok(ctx, m, tag, d):
    kt = ref.ktree(m.model.kern)
    with ctx.total('sum_of_prods_kex', **d): s = m.sum_of_prods_kex
    try: live = [live_component(c) for c in s.composite_terms]
    except (KeyError, IndexError, TypeError) as x: ctx.fail('malformed-form', error=repr(x), **d); return
    want = expected(kt); rest = list(want)
    for c in live:
        for j, w in enumerate(rest):
            if comp_match(c, w): del rest[j]; break
        else: ctx.fail('form-not-of-current-fit:' + tag, component=c, current=want, **d); return
    ctx.check(not rest, 'form-not-of-current-fit:' + tag, missing=rest, **d)


def new_data(rng, ctx, m, data, a, X, Y):  # the data to fit replaced, by as many points or more
    ctx.ev('new data')
    Xd, Yd = (X.copy(), np.round(Y + np.random.randn(*Y.shape), 3)) if rng.random() < .5 else models.data(rng, len(X) + rng.choice([0, 2, -1]))
    m.X, m.Y = data[a] = Xd, Yd


def case(i, rng, ctx):
    X, Y = models.data(rng, rng.choice([4, 6, 8])); X0, Y0 = X.copy(), Y.copy()
    kexs = [gen.root(gen.canon(rng, 8)) for _ in range(2)]
    shared = rng.random() < .4
    ms = []
    with ctx.total('GPModel'):
        ms = [GPModel(X, Y, kexs[0]), GPModel(X, Y, kexs[0] if shared else kexs[1])]
        if rng.random() < .3: ms.append(GPModel(X, Y))
    data = [(X, Y) for _ in ms]  # what each model was last given
    fitted = [(X, Y) for _ in ms]  # what each model was last fit to
    state = [dict(fits=0, restarts=None, described=False, score=(None, None)) for _ in ms]
    hist = []; nxt = None
    if rng.random() < .6:
        for m, st in zip(ms, state):
            with ctx.total('fit'): m.fit(0)
            st.update(fits=1, restarts=0)
    for step in range(rng.randint(5, 12)):
        a = rng.randrange(len(ms)); again = nxt is not None and rng.random() < .7
        if again: a = nxt
        nxt = None; m, st = ms[a], state[a]
        ks = [snap(k.kernel_expression) for k in ms]
        pars = [None if k.model is None else k.model.param_array.copy() for k in ms]
        gps = [k.model for k in ms]; scores = [(k.cached_utility_function, k.cached_utility_function_type) for k in ms]
        forms = [getattr(k, '_sum_of_prods_kex', None) for k in ms]
        op = rng.choice(['fit', 'fit', 'describe', 'describe', 'score', 'predict', 'copy', 'copy', 'copy', 'score', 'describe', 'fit', 'fit_kex', 'new data'] if i % 2 else ['fit', 'describe', 'describe', 'score', 'predict', 'new data'])
        if again: op = 'describe'
        d = dict(op=op, model=a, expr=repr(m.kernel_expression), history=hist[-6:])
        hist.append(f'{op}{a}')
        did = st['fits']
        if op == 'fit':
            if rng.random() < .25: new_data(rng, ctx, m, data, a, X, Y)
            if rng.random() < .2: m.kernel_expression = gen.root(gen.canon(rng, 5)); ks[a] = snap(m.kernel_expression); ctx.ev('new expression'); d['expr'] = repr(m.kernel_expression)
            last = None if m.model is None else m.model.param_array.copy()
            if st['restarts'] is None and rng.random() < .3:
                ctx.ev('before fit')
                try: m.fit(); ctx.fail('fit-without-restarts-accepted', **d)
                except ValueError: ctx.check(m.model is None or True, 'x')
            elif rng.random() < .5 or st['restarts'] is None:
                r = rng.choice([0, 0, 0, 1]); st['restarts'] = r
                try: 
                    res = m.fit(r)
                    ctx.check(res is m, 'fit-returns-model', **d)
                except np.linalg.LinAlgError: return
                st['fits'] += 1; ctx.ev('step:fit')
            else:
                seen = []
                from paramz.model import Model
                orig = Model.optimize_restarts
                def spy(self, num_restarts=10, *x, **kw): seen.append(num_restarts); return orig(self, num_restarts, *x, **kw)
                Model.optimize_restarts = spy
                try: m.fit()
                except np.linalg.LinAlgError: return
                finally: Model.optimize_restarts = orig
                ctx.check(seen == [st['restarts']], 'refit-restarts', got=seen, want=st['restarts'], **d)
                st['fits'] += 1; ctx.ev('step:fit')
            if st['fits'] > did:
                fitted[a] = data[a]
                n = ref.root_form(ref.norm(ref.tup(m.kernel_expression)))
                ctx.check(ref.root_form(ref.kshape(ref.ktree(m.model.kern))) == ref.sort_t(n), 'fitted-kernel-of-other-expression', kernel=ref.kshape(ref.ktree(m.model.kern)), **d)
                ctx.check(np.array_equal(m.model.X, data[a][0]) and np.array_equal(m.model.Y, data[a][1]), 'fitted-other-data', **d)
                ctx.check(all(m.model is not g for j, g in enumerate(gps) if g is not None and j != a), 'models-share-a-fit', **d)
                if st['restarts'] == 0:
                    try:
                        models.gen_set(m, rng)
                        if last is not None and last.size == m.model.param_array.size and .1 <= last.min() and last.max() <= 5 and rng.random() < .7:  # the previous fit's values, of other parameters
                            m.model[:] = np.random.permutation(last); ctx.ev('values permuted by refit'); nxt = a
                    except np.linalg.LinAlgError: return
        elif op == 'new data':  # for the next fit: what the model says until then is of the fit it has
            new_data(rng, ctx, m, data, a, X, Y)
            if m.model is not None: ctx.ev('new data before refit')
        elif op == 'describe':
            if m.model is None:
                ctx.ev('before fit')
                for what, g in (('interpret', lambda: m.interpret()), ('sum_of_prods_kex', lambda: m.sum_of_prods_kex)):
                    try: g(); ctx.fail('description-before-fit:' + what, **d)
                    except ValueError: ctx.check(True, 'ok')
                    except Exception as e: ctx.fail('description-before-fit:' + what, error=repr(e), **d)
            else:
                ctx.ev('step:describe')
                if st['fits'] > 1 and st['described']: ctx.ev('described after refit'); ctx.nontrivial(tuple(hist) + (d['expr'],))
                if ncomp_ok(m):
                    form_ok(ctx, m, 'refit' if st['fits'] > 1 else 'fit', d)
                    with ctx.total('interpret', **d): text = m.interpret()
                    judge(ctx, text, ref.ktree(m.model.kern), d)
                    st['described'] = True
        elif op == 'score' and m.model is not None:
            ctx.ev('step:score')
            f = rng.choice([BIC, AIC])
            with ctx.total('score', **d): v = m.compute_utility(f)
            st['score'] = (v, f.__name__)
            k = ref.n_params(ref.norm(ref.tup(m.kernel_expression))) + 1; ll = m.model.log_likelihood()
            w = -2 * ll + k * (np.log(len(fitted[a][0])) if f is BIC else 2)
            ctx.check(abs(v - w) <= 1e-8 * (1 + abs(w)), 'score-not-of-current-fit', got=v, want=w, **d)
        elif op == 'predict' and m.model is not None:
            ctx.ev('step:predict')
            Z = np.array([[X.min() - 1.], [X.mean()], [X.max() + 1]])
            with ctx.total('predict', **d): p = m.predict(Z)
            kt, nz = ref.ktree(m.model.kern), models.noise(m)
            Xf, Yf = fitted[a]
            c = models.cond(kt, nz, Xf)
            if c < 3e3:
                mu, var = ref.gp_predict(kt, nz, Xf, Yf, Z)
                s = np.abs(ref.keval(kt, Xf)).max() + np.abs(ref.keval(kt, Z)).max() + np.abs(ref.keval(kt, Xf, Z)).max()
                tol = (1e-6 * c + 1e-8) * (1 + s) * (1 + s / nz) * (1 + np.abs(Yf).max())
                if tol < .05: ctx.check(np.all(np.abs(p['mean'] - mu) <= tol) and np.all(np.abs(p['covariance'] - var) <= tol), 'prediction-not-of-current-fit', got=p['mean'].ravel(), want=mu.ravel(), got_var=p['covariance'].ravel(), want_var=var.ravel(), tol=tol, **d)
        elif op == 'copy':
            ctx.ev('step:copy')
            how = rng.choice(['deepcopy', 'pickle']); again = False
            with ctx.total('copy', **d): c = deepcopy(m) if how == 'deepcopy' else pickle.loads(pickle.dumps(m))
            ctx.check(c.kernel_expression == m.kernel_expression and (c.cached_utility_function, c.cached_utility_function_type, c.restarts) == (m.cached_utility_function, m.cached_utility_function_type, m.restarts), 'copy-differs', how=how, **d)
            if m.model is not None:
                ctx.check(np.array_equal(c.model.param_array, m.model.param_array) and abs(c.model.log_likelihood() - m.model.log_likelihood()) <= 1e-9 * (1 + abs(m.model.log_likelihood())), 'copy-fit-differs', how=how, **d)
                if ncomp_ok(m): form_ok(ctx, c, 'copy', d)
                Z = X[:2] + .5
                with ctx.total('predict copy', **d): ctx.check(np.allclose(c.predict(Z)['mean'], m.predict(Z)['mean'], rtol=1e-6, atol=1e-8), 'copy-predicts-differently', how=how, **d)
                # same parameters through a new fit of the copy's own expression
                if rng.random() < .3:
                    with ctx.total('refit copy', **d): c.fit(0)
                    copy_fit = data[a]; again = True
                else: copy_fit = fitted[a]
            else: copy_fit = fitted[a]
            if len(ms) < 4 and rng.random() < .3: ms.append(c); data.append(data[a]); fitted.append(copy_fit); state.append(dict(st, restarts=0 if again else st['restarts'], fits=st['fits'] + (1 if c.model is not None else 0))); ks.append(None); pars.append(None); gps.append(None); scores.append(None); forms.append(None)
        elif op == 'fit_kex':
            ctx.ev('fit_kex')
            t = gen.canon(rng, 6); e = gen.build(t); how = rng.choice(['1d', 'list', '2d'])
            Xi, Yi = {'1d': (X[:, 0], Y[:, 0]), 'list': (X[:, 0].tolist(), Y[:, 0].tolist()), '2d': (X, Y)}[how]
            d.update(expr=ref.to_str(t), how=how); f = rng.choice([BIC, AIC])
            try:
                with contextlib.redirect_stdout(io.StringIO()): c = fit_kex(Xi, Yi, e, 1, f) if rng.random() < .7 else fit_kex(Xi, Yi, e, 1, score=f, optimiser='scg', max_iters=20)
            except np.linalg.LinAlgError: return
            except Exception as x: ctx.fail('fit_kex-raises', error=repr(x), **d); return
            ctx.check(isinstance(c, GPModel) and c.cached_utility_function_type == f.__name__ and c.cached_utility_function == f(c.model, c.model.log_likelihood(), len(X), ref.n_params(ref.norm(t)) + 1), 'fit_kex-score', **d)
            ctx.check(np.array_equal(c.model.X, X0) and np.array_equal(c.model.Y, Y0), 'fit_kex-data', **d)
            ctx.check(ref.root_form(ref.kshape(ref.ktree(c.model.kern))) == ref.sort_t(t), 'fit_kex-kernel', **d)
        # frame conditions
        for j, (k, s, p) in enumerate(zip(ms, ks, pars)):
            if s is not None: ctx.check(snap(k.kernel_expression) == s, 'expression-modified:' + op, of=j, **d)
            if j != a or op not in ('fit',):
                if p is not None: ctx.check(k.model is gps[j] and np.array_equal(k.model.param_array, p), 'fit-modified:' + op, of=j, **d)
                if scores[j] is not None and not (j == a and op == 'score'): ctx.check((k.cached_utility_function, k.cached_utility_function_type) == scores[j], 'score-modified:' + op, of=j, **d)
                if forms[j] is not None: ctx.check(getattr(k, '_sum_of_prods_kex', None) is forms[j], 'form-modified:' + op, of=j, **d)
        ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'data-modified:' + op, **d)
    ctx.check(ref.tup(GPModel(X, Y).kernel_expression) == ('+', 'WN') and not GPModel(X, Y).kernel_expression.parameters, 'default-expression-modified', got=repr(GPModel(X, Y).kernel_expression), history=hist)
    if i < 3: ctx.sample(' '.join(hist))
def ncomp_ok(m):
    a = np.abs(m.model.kern.param_array)
    if not np.all(np.isfinite(a)) or a.max() > 1e60 or any(0 <= v < 1e-60 for p in m.model.kern.flattened_parameters if p.name not in ('offset', 'location') for v in p.values): return False  # a diverged optimum
    from gpyv.props.c15 import ncomp
    return ncomp(ref.tup(m.kernel_expression)) <= 40
