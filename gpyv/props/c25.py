"""List fitters, sequential and parallel."""
import os, time, random, warnings
import numpy as np
from gpyv import ref, gen, models
from GPy_ABCD import fit_mods_not_parallel, fit_mods_parallel_processes
from GPy_ABCD.Models.model import GPModel
import GPy_ABCD.Models.modelSearch as MS

LEVEL = 'exploration'
JIT = False
WORKERS = 3
CASE_LIMIT = 110
TECH = 'runtime monitor: real process pools under injected delays, failures and core counts; each returned model is matched with its input by position and compared with a sequential fit; completion orders and processes are recorded'
RULE = ('a case fits a list of 0-40 kernels (with repetitions) in a real process pool with a random core count, with random delays and sometimes failures injected into single fits, and checks order, identity of kernels and data, equality with '
        'sequential fitting, retry counts and error propagation; distinct by (list, delays); non-trivial = the fits completed in an order different from the list\'s')
N = {'quick': 110, 'thorough': 2500}
MIN = {'monitor_checks': 400, 'pools run': 40, 'models returned by pools': 250, 'out-of-order completions': 12, 'failures propagated': 5, 'recovered by retry': 3, 'equal to sequential': 25, 'several processes': 12}


class Boom(Exception): pass


def case(i, rng, ctx):
    X, Y = models.data(rng, 5)
    n = rng.choice([0, 1, 2, 3, 5, 8, 9, 13, 16, 17, 24, 40])
    base = [gen.canon(rng, 6) for _ in range(max(1, min(n, 12)))]
    ts = [base[j % len(base)] if rng.random() < .8 else rng.choice(base) for j in range(n)]
    kexs = [gen.root(t) for t in ts]
    cores = rng.choice([1, 2, 3, 8, 8, 16, 61])
    r = rng.choice([0, 0, 1]) if n <= 9 else 0
    delays = {id(k): 0. for k in kexs}
    slow = rng.random() < .8 and n
    for k in kexs:
        if slow: delays[id(k)] = rng.choice([0, .001, .01, .03])
    if slow: delays[id(kexs[0])] = .06   # the first is the slowest: a fitter returning by completion would put it last
    fails = {}
    mode = rng.choice(['none', 'none', 'none', 'recover', 'fatal']) if n else 'none'
    retries = rng.choice([0, 1, 2, 3])
    if mode == 'recover' and retries: fails = {j: rng.randint(1, retries) for j in rng.sample(range(n), min(n, 2))}
    elif mode == 'fatal': fails = {rng.randrange(n): retries + 1}
    fails = {j: v for j, v in fails.items() if v}
    order = [str(k) for k in kexs]
    d = dict(exprs=[ref.to_str(t) for t in ts], cores=cores, restarts=r, fails=fails, retries=retries, delays=[delays[id(k)] for k in kexs])
    # kernels travel to workers by pickling: mark them through the expression itself, which is part of what must come back
    for j, k in enumerate(kexs): k.tag_ = (j, delays[id(k)], fails.get(j, 0))
    orig = GPModel.fit; attempts = {}
    def fit(self, *a, **kw):
        j, dl, nf = self.kernel_expression.tag_
        if dl: time.sleep(dl)
        attempts[j] = attempts.get(j, 0) + 1
        if attempts[j] <= nf: raise Boom(f'{j}/{attempts[j]}')
        # few iterations: rounding depends on memory alignment, and long optimisations of flat objectives amplify it
        kw.setdefault('max_iters', 5); res = orig(self, *a, **kw)
        self.final_ = self.model.param_array.copy(), float(self.model.log_likelihood())
        self.pid_, self.done_, self.tries_ = os.getpid(), time.monotonic(), attempts[j]
        return res
    oc = getattr(MS, 'cpu_count', None)
    GPModel.fit = fit; MS.cpu_count = lambda: cores
    opt = rng.choice(['lbfgsb', 'scg'])
    fatal = any(v > retries for v in fails.values())
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                par = fit_mods_parallel_processes(X, Y, kexs, r, opt, retries); err = None
            except Boom as e: par, err = None, e
            except np.linalg.LinAlgError: return
            except Exception as e: ctx.fail(f'parallel-raises:{type(e).__name__}', error=repr(e), **d); return
            ctx.ev('pools run'); attempts.clear()
            try: seq = fit_mods_not_parallel(X, Y, kexs, r, opt, retries); serr = None
            except Boom as e: seq, serr = None, e
            except np.linalg.LinAlgError: return
            except Exception as e: ctx.fail(f'sequential-raises:{type(e).__name__}', error=repr(e), **d); return
    finally: GPModel.fit = orig; MS.cpu_count = oc
    if fatal:
        ctx.ev('failures propagated'); j = next(j for j, v in fails.items() if v > retries)
        ctx.check(err is not None and str(err) == f'{j}/{retries + 1}', 'failure-not-propagated:parallel', got=repr(err), **d)
        ctx.check(serr is not None and str(serr) == f'{j}/{retries + 1}', 'failure-not-propagated:sequential', got=repr(serr), **d)
        return
    if fails: ctx.ev('recovered by retry')
    for nm, ms, e in (('parallel', par, err), ('sequential', seq, serr)):
        if not ctx.check(e is None and isinstance(ms, list) and len(ms) == n, f'number-of-models:{nm}', got=None if ms is None else len(ms), want=n, error=repr(e), **d): return
        for j, m in enumerate(ms):
            ok = ctx.check(ref.root_form(ref.tup(m.kernel_expression)) == ref.sort_t(ts[j]) and m.kernel_expression.tag_[0] == j, f'order:{nm}', position=j, got=(str(m.kernel_expression), m.kernel_expression.tag_), **d)
            ctx.check(np.array_equal(m.X, X) and np.array_equal(m.Y, Y) and np.array_equal(m.model.X, X) and np.array_equal(m.model.Y, Y), f'data:{nm}', position=j, **d)
            ctx.check(ref.root_form(ref.kshape(ref.ktree(m.model.kern))) == ref.sort_t(ts[j]), f'fitted-kernel:{nm}', position=j, got=ref.kshape(ref.ktree(m.model.kern)), **d)
            ctx.check(m.restarts == r and m.tries_ == fails.get(j, 0) + 1, f'attempts:{nm}', position=j, got=(m.restarts, m.tries_), **d)
            ctx.check(ref.integrity(m.kernel_expression) == [], f'links:{nm}', position=j, problems=ref.integrity(m.kernel_expression)[:2], **d)
            if not ok: return
    ctx.ev('models returned by pools', n)
    done = sorted(range(n), key=lambda j: par[j].done_)
    if len({m.pid_ for m in par}) > 1: ctx.ev('several processes')
    if done != list(range(n)): ctx.ev('out-of-order completions'); ctx.nontrivial((tuple(ts), tuple(done)))
    for nm, ms in (('parallel', par), ('sequential', seq)):
        for j, m in enumerate(ms):
            ctx.check(np.array_equal(m.model.param_array, m.final_[0]) and abs(m.model.log_likelihood() - m.final_[1]) <= 1e-9 * (1 + abs(m.final_[1])), f'fit-lost-on-the-way:{nm}', position=j, got=m.model.param_array.tolist(), fitted=m.final_, **d)
    tol = 1e-3 if r else 1e-9
    same = all(np.allclose(a.model.param_array, b.model.param_array, rtol=tol, atol=tol / 10) or (r and abs(a.final_[1] - b.final_[1]) <= tol * (1 + abs(b.final_[1]))) for a, b in zip(par, seq))
    ctx.ev('equal to sequential', n > 0); ctx.check(same, 'parallel-differs-from-sequential', **d)
    for k in kexs: ctx.check(not k.parameters, 'expressions-modified', expr=str(k), **d)
    if i < 3: ctx.sample(f'{n} kernels, cores {cores}, completion order {done}')
