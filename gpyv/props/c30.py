"""Restarts and optimiser options."""
import contextlib, io
import numpy as np
from gpyv import ref, gen, models
from GPy_ABCD import fit_one_model, fit_mods_not_parallel, explore_model_space
from GPy_ABCD.Models.model import GPModel
from GPy.core.gp import GP

LEVEL = 'exploration'
CAPS = {'quick': 150, 'thorough': 600}
JIT = False
TECH = 'runtime monitor: every optimisation run below a fit is recorded (optimiser, options, final objective) and the fitted model compared with the best of its runs'
RULE = ('a case fits a random expression to random data through GPModel.fit, fit_one_model or a list fitter with random restarts, optimiser and options; the number of runs, the options they received and the objective reached by the model are checked '
        'against the recorded runs; distinct by (tree, options); non-trivial = at least two runs with different outcomes')
N = {'quick': 200, 'thorough': 5000}
MIN = {'monitor_checks': 200, 'runs recorded': 80, 'several restarts': 20, 'models compared with their best run': 30, 'non-default optimiser': 10, 'fits repeated': 5, 'robust fits': 6, 'falsy options': 2, 'many restarts': 3}


class Spy:
    def __enter__(self):
        self.runs = []; self.starts = []; self.orig = GP.optimize
        spy = self
        def optimize(m, optimizer=None, *a, **kw):
            spy.starts.append(m.param_array.copy()); r = spy.orig(m, optimizer, *a, **kw)
            spy.runs.append((id(m), optimizer, kw, float(r.f_opt), np.array(r.x_opt))); return r
        GP.optimize = optimize
        return self
    def __exit__(self, *a): GP.optimize = self.orig


def failing_run(rng, ctx):
    """One run fails: with robust the best of the others is kept (and the runs reported if verbose); without it the fit fails with that error."""
    t = gen.canon(rng, 6); X, Y = models.data(rng, 6); r = rng.choice([2, 3, 4]); bad = rng.randrange(r); robust = rng.random() < .7; verbose = rng.random() < .5
    d = dict(expr=ref.to_str(t), restarts=r, failing=bad, robust=robust, verbose=verbose, how='failing run')
    n = [0]; runs = []; orig = GP.optimize; out = io.StringIO()
    class Planned(ArithmeticError): pass
    def optimize(m, *a, **kw):
        n[0] += 1
        if n[0] == bad + 1: raise Planned('planned')
        o = orig(m, *a, **kw); runs.append(float(o.f_opt)); return o
    GP.optimize = optimize; m = GPModel(X, Y, gen.root(t))
    try:
        with contextlib.redirect_stdout(out): res = m.fit(r, verbose=verbose, robust=robust, max_iters=5)
        err = None
    except np.linalg.LinAlgError: return
    except Exception as e: err = e
    finally: GP.optimize = orig
    if not robust: ctx.check(isinstance(err, Planned), 'failing-run-hidden', error=repr(err), **d); ctx.check(n[0] == bad + 1, 'runs-after-a-failed-one', got=n[0], **d); return
    if not ctx.check(err is None, 'robust-fit-fails', error=repr(err), **d): return
    ctx.ev('robust fits')
    ctx.check(res is m and n[0] == r and len(m.model.optimization_runs) == r - 1, 'runs-of-robust-fit', got=(n[0], len(m.model.optimization_runs)), **d)
    f = float(m.model.objective_function())
    if all(np.isfinite(runs)): ctx.check(f <= min(runs) + 1e-4 * (1 + abs(min(runs))), 'not-the-best-run', objective=f, runs=runs, **d)
    ctx.check(out.getvalue().count('Optimization restart') == (r - 1 if verbose else 0), 'verbose', got=out.getvalue(), **d)


def case(i, rng, ctx):
    if i % 6 == 5: return failing_run(rng, ctx)

    t = gen.canon(rng, 7); X, Y = models.data(rng, rng.choice([5, 8]))
    r = rng.choice([0, 1, 2, 3, 4]); opt = rng.choice(['lbfgsb', 'lbfgsb', 'scg', 'fmin_tnc', 'simplex'])
    how = rng.choice(['fit', 'fit', 'fit kwargs', 'one', 'list'])
    if i % 24 == 3: t, r = ref.root_form(ref.norm(rng.choice([('+', 'C'), ('+', 'WN'), ('*', 'LIN', 'C')]))), rng.choice([11, 26, 60]); ctx.ev('many restarts')
    d = dict(expr=ref.to_str(t), restarts=r, optimiser=opt, how=how)
    e = gen.root(t); kw = {}
    default = rng.random() < .3
    with Spy() as s:
        try:
            if how == 'fit':
                m = GPModel(X, Y, e); m = m.fit(r) if default else m.fit(r, opt)
            elif how == 'fit kwargs':
                kw = rng.choice([dict(max_iters=rng.randint(1, 6)), dict(max_iters=rng.randint(1, 6), messages=False), dict(max_iters=0), dict(max_iters=0), dict(max_iters=rng.randint(1, 6), ipython_notebook=False, clear_after_finish=True)])
                if kw['max_iters'] == 0: opt = d['optimiser'] = 'lbfgsb'; ctx.ev('falsy options')
                m = GPModel(X, Y, e).fit(restarts=r, optimiser=opt, **kw); default = False
            elif how == 'one':
                m = fit_one_model(X, Y, e, r) if default else fit_one_model(X, Y, e, r, opt, 0)
            else:
                e2 = gen.root(gen.canon(rng, 5))
                ms = fit_mods_not_parallel(X, Y, [e, e2], r) if default else fit_mods_not_parallel(X, Y, [e, e2], r, opt, 0)
                if not ctx.check(len(ms) == 2, 'number-of-models', got=len(ms), **d): return
                m = ms[0]
        except np.linalg.LinAlgError: return
        except Exception as x: 
            ctx.fail(f'fit-raises:{type(x).__name__}', error=repr(x), **d); return
    mine = [x for x in s.runs if x[0] == id(m.model)]
    ctx.ev('runs recorded', len(mine))
    want = 'lbfgsb' if default else opt
    if how == 'list' and default: pass
    if want != 'lbfgsb' and r: ctx.ev('non-default optimiser')
    if len([x for x in s.runs if x[0] != id(m.model)]) and how != 'list': ctx.fail('runs-of-other-models', **d)
    ctx.check(len(mine) == r, 'number-of-runs', got=len(mine), want=r, **d)
    ctx.check(m.restarts == r, 'restarts-attribute', got=m.restarts, **d)
    ctx.check(all(x[1] == want for x in mine), 'optimiser', got=[x[1] for x in mine], want=want, **d)
    ctx.check(all({k: v for k, v in x[2].items() if k in kw or k in ('max_iters', 'messages')} == kw for x in mine), 'options', got=[x[2] for x in mine], want=kw, **d)
    if mine:
        best = min(x[3] for x in mine); f = float(m.model.objective_function())
        ctx.ev('models compared with their best run')
        if len(mine) > 1:
            ctx.ev('several restarts')
            if max(x[3] for x in mine) - best > 1e-3: ctx.nontrivial((t, r, opt, how, i))
        if np.isfinite(best): ctx.check(f <= best + 1e-4 * (1 + abs(best)), 'not-the-best-run', objective=f, runs=[x[3] for x in mine], **d)
    if how == 'fit' and i % 2 and len(mine) == r and m.model is not None:
        # the same fit again: from the same start whatever the model went through, hence the same runs for the same random numbers
        ctx.ev('fits repeated')
        sd = rng.randrange(10 ** 6); o = opt if not default else 'lbfgsb'
        m2 = GPModel(X, Y, gen.root(t))
        # few iterations: rounding depends on memory alignment, and long optimisations of flat objectives amplify it
        with Spy() as s1, Spy() as s2:
            try:
                r2 = rng.choice([1, 1, 2, 3]); d['restarts again'] = r2
                np.random.seed(sd); m.fit(r2, o, max_iters=4); n1 = len(s2.starts); np.random.seed(sd); m2.fit(r2, o, max_iters=4)
            except np.linalg.LinAlgError: return
        st = s2.starts
        if not ctx.check(n1 == r2 and len(st) == 2 * r2, 'runs-of-refit', got=(n1, len(st) - n1), **d): return
        same = lambda a, b, tol: len(a) == len(b) and np.allclose(a, b, rtol=tol, atol=tol / 10)
        ctx.check(all(same(a, b, 1e-9) for a, b in zip(st[:r2], st[r2:])), 'refit-starts-elsewhere', refit=st[:r2], fresh=st[r2:], **d)
        fa, fb = float(m.model.objective_function()), float(m2.model.objective_function())
        ctx.check(same(m.model.param_array, m2.model.param_array, 1e-3) or abs(fa - fb) <= 1e-3 * (1 + abs(fb)), 'refit-depends-on-previous-fit', refit=m.model.param_array.tolist(), fresh=m2.model.param_array.tolist(), **d)
        ctx.check(len(m.model.optimization_runs) == len(m2.model.optimization_runs) == r2 == m.restarts, 'runs-of-refit', got=len(m.model.optimization_runs), **d)
    if i < 3: ctx.sample(f'{d} runs={[round(x[3], 3) for x in mine]}')
