"""Reports, plots, single fits by hand."""
import contextlib, io, os, re, shutil, tempfile, warnings
import numpy as np
from gpyv import ref, gen, models
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from GPy.core.gp import GP
from GPy_ABCD import BIC, AIC, fit_kex, fit_GPy_kern, model_printout
from GPy_ABCD.Models.model import GPModel
from GPy_ABCD.Util.kernelUtil import sampleCurves, saveKernelSamples
from GPy_ABCD.Util.dataAndPlottingUtil import gg_plot, gg_f_plot

LEVEL = 'exploration'
JIT = False
TECH = 'runtime monitor: printed reports are parsed back and drawn lines read back from the figures, and compared with the models, random draws and data they were made from'
RULE = ('a case prints or plots a random model, fits one expression or kernel by hand, or plots data, functions or sample curves, and compares every number printed and every point drawn with its source; distinct by (kind, expression, data); non-trivial = the report or figure was read back')
N = {'quick': 640, 'thorough': 12000}
MIN = {'printed lists': 10, 'monitor_checks': 1500, 'reports read back': 30, 'fit_kex': 40, 'fit_GPy_kern': 30, 'with a fixed parameter': 8, 'curves read back': 60, 'data plots read back': 30, 'model plots': 30, 'saved pictures': 6}


def lines(fig): return [np.array(l.get_xydata()) for ax in fig.axes for l in ax.lines]
def column(a): return np.asarray(a, float).reshape(-1)
def quiet():
    s = contextlib.ExitStack(); w = s.enter_context(warnings.catch_warnings()); warnings.simplefilter('ignore'); return s


def case(i, rng, ctx):
    if i % 16 == 3:  # lists of kernels and models as printed, whatever their length
        es = [gen.root(gen.canon(rng, 4)) for _ in range(rng.randint(1, 5))]; l = [rng.choice(es) for _ in range(rng.choice([0, 1, 3, 12, 45, 120]))]
        from GPy_ABCD.Models.modelSearch import print_k_list
        with ctx.total('print_k_list', kernels=[str(e) for e in es]):
            want = ', '.join(map(str, l)); ctx.ev('printed lists')
            ctx.check(print_k_list(l) == want and print_k_list([GPModel(np.zeros((1, 1)), np.zeros((1, 1)), e) for e in l]) == want, 'printed-list', got=print_k_list(l)[:500], want=want[:500])
    try: [report, by_hand, kern_by_hand, curves, data_plot, model_plot, by_hand, report][i % 8](i, rng, ctx)
    finally: plt.close('all')


def values_of(m): return (m.model.param_array.tolist(), m.cached_utility_function, m.cached_utility_function_type, m.restarts, repr(m.kernel_expression))

def some_model(rng, ctx, d, maxsize=6):
    t = gen.canon(rng, maxsize); X, Y = models.data(rng, large=.04); d.update(expr=ref.to_str(t), X=X.ravel().tolist())
    m = GPModel(X, Y, gen.root(t))
    if not models.unoptimised(rng, ctx, m, **d): return None
    m.compute_utility(rng.choice([BIC, AIC]))
    return m, t, X, Y


def report(i, rng, ctx):
    d = {}; r = some_model(rng, ctx, d)
    if not r: return
    m, t, X, Y = r; out = io.StringIO(); before = values_of(m)
    with ctx.total('model_printout', **d), quiet(), contextlib.redirect_stdout(out): model_printout(m)
    txt = out.getvalue(); d['text'] = txt; ls = txt.split('\n')
    ctx.ev('reports read back'); ctx.nontrivial(('report', t, tuple(before[0])))
    ctx.check(ls[0] == str(m.kernel_expression), 'report:expression', **d)
    plain = re.sub(r'\x1b\[[0-9;]*m', '', txt)
    got = [float(x) for x in re.findall(r'\|\s+(-?[\d.]+(?:e[+-]?\d+)?)\s+\|', plain)]
    ctx.check(np.allclose(got, m.model.kern.param_array, rtol=1e-9), 'report:parameters', got=got, want=m.model.kern.param_array.tolist(), **d)
    ll = re.search(r'^Log-Lik: (\S+)$', txt, re.M); sc = re.search(r'^(BIC|AIC): (\S+)$', txt, re.M)
    ctx.check(bool(ll) and abs(float(ll.group(1)) - m.model.log_likelihood()) <= 1e-9 * (1 + abs(m.model.log_likelihood())), 'report:likelihood', want=m.model.log_likelihood(), **d)
    ctx.check(bool(sc) and sc.group(1) == m.cached_utility_function_type and abs(float(sc.group(2)) - m.cached_utility_function) <= 1e-9 * (1 + abs(m.cached_utility_function)), 'report:score', want=(m.cached_utility_function_type, m.cached_utility_function), **d)
    ctx.check(m.interpret() in txt, 'report:description', want=m.interpret(), **d)
    ctx.check(values_of(m) == before, 'model-changed-by-report', before=before, after=values_of(m), **d)
    if i < 16: ctx.sample(txt[-300:])


def spied(f):
    runs = []; orig = GP.optimize
    def optimize(m, optimizer=None, *a, **kw):
        r = orig(m, optimizer, *a, **kw); runs.append((id(m), kw.get('max_iters'), optimizer)); return r
    GP.optimize = optimize
    try: return f(), runs
    finally: GP.optimize = orig


FORMS = {'1d': lambda a: column(a), '2d': lambda a: a.copy(), 'list': lambda a: column(a).tolist(), 'tuple': lambda a: tuple(column(a).tolist())}

def by_hand(i, rng, ctx):
    t = gen.composite(rng); 
    while ref.size(ref.norm(t)) > 7: t = gen.composite(rng)
    want = ref.norm(t); X, Y = models.data(rng, 6); r = rng.choice([0, 1, 2]); f = rng.choice([None, BIC, AIC, lambda m, a, b, c: 3 * c - a])
    fx, fy = rng.choice(list(FORMS)), rng.choice(list(FORMS)); it = rng.choice([2, 5]); opt = rng.choice([None, 'scg', 'lbfgsb'])
    d = dict(raw=ref.to_str(t), restarts=r, forms=(fx, fy), X=X.ravel().tolist(), optimiser=opt); kw = dict(max_iters=it)
    if opt: kw['optimiser'] = opt
    if f is not None: kw['score'] = f
    e = gen.build_any(t, rng)
    try:
        with quiet(), contextlib.redirect_stdout(io.StringIO()): m, runs = spied(lambda: fit_kex(FORMS[fx](X), FORMS[fy](Y), e, r, **kw))
    except np.linalg.LinAlgError: return
    except Exception as x:
        if type(x).__name__ == 'CaseTimeout': raise
        ctx.fail(f'fit_kex-raises:{type(x).__name__}', error=repr(x), **d); return
    ctx.ev('fit_kex'); ctx.nontrivial(('fit_kex', t, tuple(X.ravel())))
    T = ref.norm(ref.tup(m.kernel_expression))  # a wrapper around one term is the term
    ctx.check(isinstance(m, GPModel) and T == want, 'fit_kex:expression', got=repr(m.kernel_expression), want=ref.to_str(want), **d)
    ctx.check(ref.norm(ref.kshape(ref.ktree(m.model.kern))) == want, 'fit_kex:kernel', got=ref.kshape(ref.ktree(m.model.kern)), **d)
    ctx.check(all(np.shape(a) == X.shape and np.array_equal(np.asarray(a), b) for a, b in ((m.X, X), (m.Y, Y), (m.model.X, X), (m.model.Y, Y))), 'fit_kex:data', got=(np.shape(m.X), np.shape(m.Y)), **d)
    ctx.check(len(runs) == r and all(x[1] == it and x[2] == (opt or 'lbfgsb') for x in runs) and m.restarts == r, 'fit_kex:restarts-and-options', runs=runs, **d)
    ll = m.model.log_likelihood(); k = ref.n_params(want) + 1; n = len(X)
    w = -2 * ll + k * np.log(n) if f in (None, BIC) else 2 * k - 2 * ll if f is AIC else 3 * k - ll
    ctx.check(abs(m.cached_utility_function - w) <= 1e-9 * (1 + abs(w) + abs(ll)) and m.cached_utility_function_type == (f or BIC).__name__, 'fit_kex:score', got=(m.cached_utility_function, m.cached_utility_function_type), want=w, **d)


def kern_by_hand(i, rng, ctx):
    t = gen.canon(rng, 5); X, Y = models.data(rng, 6); r = rng.choice([1, 2]); f = rng.choice([None, BIC, AIC]); fx, fy = rng.choice(list(FORMS)), rng.choice(list(FORMS))
    d = dict(expr=ref.to_str(t), restarts=r, forms=(fx, fy), X=X.ravel().tolist()); kw = dict(max_iters=3, verbose=False)
    if f is not None: kw['score'] = f
    out = io.StringIO(); k = gen.root(t).to_kernel(); fixed = 0
    if rng.random() < .4:  # a fixed parameter is not an estimated one
        q = rng.choice(k.flattened_parameters); q.fix(); fixed = q.size; d['fixed'] = q.hierarchy_name(); ctx.ev('with a fixed parameter')
    try:
        with quiet(), contextlib.redirect_stdout(out): m, runs = spied(lambda: fit_GPy_kern(FORMS[fx](X), FORMS[fy](Y), k, r, **kw))
    except np.linalg.LinAlgError: return
    except Exception as x:
        if type(x).__name__ == 'CaseTimeout': raise
        ctx.fail(f'fit_GPy_kern-raises:{type(x).__name__}', error=repr(x), **d); return
    ctx.ev('fit_GPy_kern'); ctx.nontrivial(('fit_GPy_kern', t, tuple(X.ravel()))); txt = out.getvalue(); d['text'] = txt
    ctx.check(np.array_equal(m.X, X) and np.array_equal(m.Y, Y) and len(runs) == r and all(x[1] == 3 for x in runs), 'fit_GPy_kern:data-and-restarts', runs=runs, **d)
    ctx.check(ref.root_form(ref.kshape(ref.ktree(m.kern))) == ref.root_form(ref.sort_t(t)), 'fit_GPy_kern:kernel', **d)
    ll = m.log_likelihood(); p = ref.n_params(ref.norm(t)) + 1 - fixed; w = (-2 * ll + p * np.log(len(X))) if f in (None, BIC) else 2 * p - 2 * ll
    a = re.search(r'^Log-Likelihood: (\S+)$', txt, re.M); b = re.search(r'^(\w+): (\S+)$', txt, re.M)
    ctx.check(bool(a) and abs(float(a.group(1)) - ll) <= 1e-9 * (1 + abs(ll)), 'fit_GPy_kern:likelihood', want=ll, **d)
    s = re.search(rf'^{(f or BIC).__name__}: (\S+)$', txt, re.M)
    ctx.check(bool(s) and abs(float(s.group(1)) - w) <= 1e-8 * (1 + abs(w) + abs(ll)), 'fit_GPy_kern:score', want=w, **d)


def curves(i, rng, ctx):
    t = gen.canon(rng, 4)
    while 'WN' in repr(t): t = gen.canon(rng, 4)
    k = gen.root(t).to_kernel(); gen.set_params(k, rng, np, False); lo = round(rng.uniform(-4, 2), 2); xl = rng.choice([None, (lo, lo + 3.), (lo, lo + .5)]); n = rng.choice([1, 2, 3, 5]); same = rng.random() < .5
    d = dict(expr=ref.to_str(t), xlims=xl, n_curves=n, same_kernel=same); draws = []
    orig = np.random.multivariate_normal
    def mvn(mean, cov, size=None, *a, **kw):
        # covariances of the moment they are drawn; smooth curves keep the drawing fast
        draws.append((np.array(mean), np.array(cov), np.array(k.K(np.linspace(*(xl or (-3., 3.)), len(mean))[:, None])) ))
        z = np.cumsum(np.random.randn(*((size,) if size is not None else ()), len(mean)), -1) / 20
        draws[-1] += (z,); return z
    kw = {} if xl is None else dict(xlims=xl)
    np.random.multivariate_normal = mvn; tmp = tempfile.mkdtemp(prefix='gpyv35_'); cwd = os.getcwd()
    try:
        with ctx.total('sampleCurves', **d), quiet():
            if i % 16 == 3:
                os.chdir(tmp); os.mkdir('pictures'); names = rng.sample(['a', 'some name', 'lin 0.5', 'lin 0.7', 'x*y+z', 'é.v2', 'CP(LIN, PER)', '1'], rng.randint(1, 3)); where = rng.choice(['pictures', os.path.join(tmp, 'pictures')])
                saveKernelSamples([k] * len(names), names, where, n_curves=n, same_kernel=same, **kw); ctx.ev('saved pictures', len(names))
                files = sorted(os.listdir('pictures')); heads = [open(f'pictures/{f}', 'rb').read(8) for f in files]
                ctx.check(files == sorted(x + '.png' for x in names) and all(h == b'\x89PNG\r\n\x1a\n' for h in heads) and os.listdir(tmp) == ['pictures'], 'saved-pictures', got=files, want=names, elsewhere=os.listdir(tmp), **d); ctx.nontrivial(('save', t, n, i)); return
            p = sampleCurves(k, n_curves=n, same_kernel=same, **kw); fig = p.draw()
    finally: np.random.multivariate_normal = orig; os.chdir(cwd); shutil.rmtree(tmp, ignore_errors=True)
    ctx.ev('curves read back', n); ctx.nontrivial(('curves', t, n, same, i))
    Z = np.concatenate([np.atleast_2d(x[3]) for x in draws]); x = np.linspace(*(xl or (-3., 3.)), Z.shape[1])
    ctx.check(len(Z) == n and (len(draws) == 1 if same else len(draws) == n), 'number-of-draws', got=len(Z), **d)
    ctx.check(all(np.all(a[0] == 0) and np.allclose(a[1], a[2], rtol=1e-9, atol=1e-12) for a in draws), 'curves-of-another-distribution', **d)
    if not same and n > 1: ctx.check(any(not np.array_equal(draws[0][1], a[1]) for a in draws[1:]), 'curves-of-one-kernel', **d)
    got = lines(fig)
    ctx.check(len(got) == n, 'number-of-curves', got=len(got), want=n, **d)
    ok = len(got) == n and all(any(len(g) == len(x) and np.allclose(g[:, 0], x) and np.allclose(g[:, 1], z) for g in got) for z in Z)
    ctx.check(ok, 'curves-drawn', **d)


def data_plot(i, rng, ctx):
    X, Y = models.data(rng); f = rng.choice([lambda v: v * v, lambda v: 3 if v > 1 else .5, lambda v: int(v)]); fx, fy = rng.choice(list(FORMS)), rng.choice(list(FORMS)); fn = rng.random() < .5
    d = dict(X=X.ravel().tolist(), forms=(fx, fy), function=fn)
    with ctx.total('gg_plot', **d), quiet(): fig = (gg_f_plot(f, FORMS[fx](X)) if fn else gg_plot(FORMS[fx](X), FORMS[fy](Y))).draw()
    got = lines(fig); y = np.array([float(f(v)) for v in column(X)]) if fn else column(Y)
    w = np.stack([column(X), y], 1); o = lambda a: a[np.lexsort((a[:, 1], a[:, 0]))]
    ctx.ev('data plots read back'); ctx.nontrivial(('data', tuple(column(X)), tuple(y)))
    ctx.check(len(got) == 1 and got[0].shape == w.shape and np.allclose(o(got[0]), o(w)), 'data-drawn', got=[g.tolist() for g in got], want=w.tolist(), **d)


def model_plot(i, rng, ctx):
    d = {}; r = some_model(rng, ctx, d)
    if not r: return
    m, t, X, Y = r; before = values_of(m)
    with ctx.total('plot', **d), quiet(): m.plot()
    ctx.ev('model plots'); ctx.nontrivial(('plot', t, tuple(before[0])))
    ctx.check(values_of(m) == before, 'model-changed-by-plot', before=before, after=values_of(m), **d)
    figs = [plt.figure(n) for n in plt.get_fignums()]
    pts = [np.array(c.get_offsets()) for f in figs for ax in f.axes for c in ax.collections if hasattr(c, 'get_offsets')] + [g for f in figs for g in lines(f)]
    w = np.concatenate([X, Y], 1); o = lambda a: a[np.lexsort((a[:, 1], a[:, 0]))]
    ctx.check(any(g.shape == w.shape and np.allclose(o(g), o(w)) for g in pts), 'data-not-in-plot', **d)
    curve = max((g for f in figs for g in lines(f)), key=len, default=None)
    if curve is not None and len(curve) > len(X):
        p = m.predict(curve[:, :1]); s = 1e-6 * (1 + np.abs(p['mean']).max())
        ctx.check(np.all(np.abs(p['mean'][:, 0] - curve[:, 1]) <= s), 'mean-drawn', **d)
