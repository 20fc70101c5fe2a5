"""Driver: forks workers over numbered cases, merges what the monitors observed, decides the verdict.

A property module (gpyv.props.<id lower>) defines
    LEVEL, RULE, TECH             strings for the evidence
    JIT = True/False              whether numba-compiled code is under test (False: same source, interpreted)
    N = {'quick': n, 'thorough': n}
    MIN = {'event': minimum}      monitors that must have fired, else the run is inconclusive
    setup(ctx)                    optional, after import, before forking
    case(i, rng, ctx)             one case; reports through ctx
    extra(ctx)                    optional, run in the parent after the workers
"""
import hashlib, json, os, pickle, random, resource, signal, sys, tempfile, time, traceback, shutil
from collections import Counter
from contextlib import contextmanager

HOME = os.environ.get('GPYV_HOME', '/verif')
REPO = os.environ.get('GPYV_REPO', '/repo')
CAP = {'quick': 75, 'thorough': 600}  # seconds of exploration at most
SLOW = 3                              # times the cap a quick run may take for the first half of its cases
CASE_LIMIT = 120                      # watchdog: seconds of wall time of a case
CPU_LIMIT = 60                        # a case beyond the watchdog that computed for this long inside the repository does
                                      # not terminate (typical cases take < 2 s); with less it is only inconclusive
MEMORY_LIMIT = 6 << 30                # address space a worker may add (8 of them share 32 GB); beyond it: MemoryError


class CaseTimeout(BaseException): pass
class Inconclusive(Exception): pass


def repo_frame(tb):
    """innermost frame of the traceback inside the repository under test, as 'file:function', or None"""
    best = None
    for f in traceback.extract_tb(tb):
        fn = os.path.realpath(f.filename)
        if fn.startswith(os.path.realpath(REPO) + '/GPy_ABCD'):
            best = f'{os.path.basename(fn)}:{f.name}'
    return best


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = Counter()
        self.distinct = set()
        self.samples = []
        self.violations = {}   # mechanism -> first record
        self.vcount = Counter()
        self.evaluations = 0
        self.notes = Counter()
        self.case_i = None
        self.timeouts = 0
        self.max_cpu = 0
        self.errors = []

    def ev(self, name, n=1): self.events[name] += n

    def nontrivial(self, key):
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, x):
        if len(self.samples) < 3: self.samples.append(short(x, 400))

    def fail(self, mech, /, **detail):
        self.vcount[mech] += 1
        if mech not in self.violations:
            self.violations[mech] = {'mechanism': mech, 'case': self.case_i, 'seed': self.seed, 'tier': self.tier,
                                     'detail': {k: short(v, 1500) for k, v in detail.items()}}

    def check(self, cond, mech, /, **detail):
        """the deciding comparison: counts as one evaluation of a monitor"""
        self.ev('monitor_checks')
        if not cond: self.fail(mech, **detail)
        return bool(cond)

    @contextmanager
    def total(self, what, mech=None, allow=(), **detail):
        """code under test that must not raise here"""
        try: yield
        except allow: raise
        except CaseTimeout: raise
        except Exception as e:
            fr = repo_frame(e.__traceback__)
            self.fail(mech or f'raises:{what}:{type(e).__name__}', error=repr(e), frame=fr, what=what,
                      trace=''.join(traceback.format_exception(e))[-1500:], **detail)
            raise Stop()

    def merge(self, o):
        self.events += o['events']; self.distinct |= o['distinct']; self.evaluations += o['evaluations']
        for s in o['samples']: self.sample(s)
        for m, r in o['violations'].items():
            if m not in self.violations or (r['case'] or 0) < (self.violations[m]['case'] or 0): self.violations[m] = r
        self.max_cpu = max(self.max_cpu, o['max_cpu'])
        self.vcount += o['vcount']; self.notes += o['notes']; self.timeouts += o['timeouts']; self.errors += o['errors']

    def dump(self):
        return {k: getattr(self, k) for k in ('events', 'distinct', 'evaluations', 'samples', 'violations', 'vcount', 'notes', 'timeouts', 'errors', 'max_cpu')}


class Stop(Exception):
    """ends the current case after a violation was recorded"""


def rng_for(ctx, i):
    return random.Random(f'{ctx.seed}/{ctx.prop}/{i}')


def seed_np(ctx, i):
    import numpy as np
    np.random.seed(int.from_bytes(hashlib.blake2b(f'{ctx.seed}/{ctx.prop}/{i}'.encode(), digest_size=4).digest(), 'big'))


def _alarm(*_): raise CaseTimeout()


def run_case(mod, ctx, i):
    ctx.case_i = i
    seed_np(ctx, i)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, 'CASE_LIMIT', CASE_LIMIT))
    t0 = time.process_time()
    try:
        ctx.evaluations += 1
        mod.case(i, rng_for(ctx, i), ctx)
    except Stop: pass
    except CaseTimeout as e:
        fr, cpu = repo_frame(e.__traceback__), time.process_time() - t0
        if fr and cpu > CPU_LIMIT: ctx.fail('does-not-terminate', frame=fr, cpu_s=round(cpu), trace=''.join(traceback.format_exception(e))[-2500:])
        else: ctx.timeouts += 1
    except Inconclusive as e: ctx.notes['inconclusive: ' + str(e)] += 1
    except Exception as e:
        fr = repo_frame(e.__traceback__)
        tr = ''.join(traceback.format_exception(e))[-2500:]
        if fr: ctx.fail(f'unexpected-exception:{type(e).__name__}', error=repr(e), frame=fr, trace=tr)
        else: ctx.errors.append(f'case {i}: {tr}')
    finally:
        signal.alarm(0)
        ctx.max_cpu = max(ctx.max_cpu, time.process_time() - t0)


def limit_memory():
    now = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    new = now + MEMORY_LIMIT
    if hard == resource.RLIM_INFINITY or new < hard: resource.setrlimit(resource.RLIMIT_AS, (new, hard))


def explore(mod, ctx, workers=None):
    n = mod.N[ctx.tier]
    workers = workers or getattr(mod, 'WORKERS', None) or min(8, os.cpu_count() or 1)
    cap = getattr(mod, 'CAPS', CAP)[ctx.tier]
    slow = SLOW if ctx.tier == 'quick' else 1
    tmp = tempfile.mkdtemp(prefix='gpyv_')
    t0 = time.time(); pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    try:
        for w in range(workers):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get('GPYV_SHOW'): os.dup2(devnull, 1)
                    limit_memory()
                    c = Ctx(ctx.prop, ctx.tier, ctx.seed)
                    for k, i in enumerate(range(w, n, workers)):
                        # cut short by a loaded machine: up to SLOW times the cap for the first half of the cases
                        if time.time() - t0 > (cap if 2 * k * workers >= n else slow * cap): c.notes['case budget cut by time cap'] += 1; break
                        run_case(mod, c, i)
                        if len(c.errors) > 5: break
                    with open(f'{tmp}/{w}', 'wb') as f: pickle.dump(c.dump(), f)
                    code = 0
                except BaseException:
                    with open(f'{tmp}/err{w}', 'w') as f: f.write(traceback.format_exc())
                finally: os._exit(code)
            pids[pid] = w
        deadline = t0 + slow * cap + CASE_LIMIT + 60
        while pids:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > deadline:
                    for p in pids: os.kill(p, signal.SIGKILL)
                    for p in list(pids): os.waitpid(p, 0)
                    ctx.errors.append(f'workers {sorted(pids.values())} did not finish'); break
                time.sleep(.02); continue
            w = pids.pop(pid, None)
            if w is None: continue
            if os.path.exists(f'{tmp}/{w}'):
                with open(f'{tmp}/{w}', 'rb') as f: ctx.merge(pickle.load(f))
            else:
                err = open(f'{tmp}/err{w}').read() if os.path.exists(f'{tmp}/err{w}') else f'status {st}'
                ctx.errors.append(f'worker {w} died: {err[-1500:]}')
    finally: shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    res = {}
    p = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: '):
                d = dict(x.split('=', 1) for x in line.split()[1:3])
                if d.get('property') == prop: res[d['mechanism']] = line.split(None, 3)[3].strip()
    return res


def finish(mod, ctx, t0):
    known = known_findings(ctx.prop)
    fresh = {m: r for m, r in ctx.violations.items() if m not in known}
    wall = time.time() - t0
    cov = {'evaluations': ctx.evaluations, 'distinct_nontrivial': len(ctx.distinct), 'rule': mod.RULE,
           'samples': ctx.samples, 'max_case_cpu_s': round(ctx.max_cpu, 2), 'events': dict(sorted(ctx.events.items()))}
    if ctx.notes: cov['notes'] = dict(ctx.notes)
    if ctx.timeouts: cov['watchdog_timeouts'] = ctx.timeouts
    if ctx.vcount: cov['violations_by_mechanism'] = dict(ctx.vcount)
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(fresh)}
    os.makedirs(f'{HOME}/evidence', exist_ok=True)
    with open(f'{HOME}/evidence/{ctx.prop}.json', 'w') as f: json.dump(ev, f, indent=1)
    for m in sorted(set(ctx.violations) & set(known)): print(f'KNOWN-FINDING: property={ctx.prop} {known[m]}')
    if fresh:
        os.makedirs(f'{HOME}/evidence/replay', exist_ok=True)
        for k, (m, r) in enumerate(sorted(fresh.items(), key=lambda mr: (mr[1]['case'] is None, mr[1]['case'] or 0))[:10]):
            p = f'{HOME}/evidence/replay/{ctx.prop}_{k}.json'
            with open(p, 'w') as f: json.dump({'property': ctx.prop, **r, 'occurrences': ctx.vcount[m]}, f, indent=1)
            print(f'VIOLATION property={ctx.prop} replay={p}')
            print(f'  mechanism={m} case={r["case"]} occurrences={ctx.vcount[m]}')
            for kk, v in r['detail'].items(): print(f'    {kk}: {short(v, 500)}')
        return 1
    if ctx.errors:
        print(f'ERROR property={ctx.prop}: harness errors'); print('\n'.join(ctx.errors[:3])); return 2
    # the minima are set for the cases of a quick run; one the time cap cut short must have seen its share of them
    n = getattr(mod, 'N', {}).get('quick', 0); share = min(1, ctx.evaluations / n) if n else 1
    need = {e: m if share == 1 else int(.6 * share * m) for e, m in mod.MIN.items()}
    low = {e: (ctx.events.get(e, 0), m) for e, m in need.items() if ctx.events.get(e, 0) < m}
    if low or ctx.timeouts > 2 or share < .05:
        print(f'INCONCLUSIVE property={ctx.prop}: monitors below their minimum {low}, watchdog timeouts {ctx.timeouts}, notes {dict(ctx.notes)}'); return 2
    print(f'HELD property={ctx.prop} tier={ctx.tier} seed={ctx.seed} cases={ctx.evaluations} distinct={len(ctx.distinct)} '
          f'events={dict(sorted(ctx.events.items()))} wall={wall:.1f}s' + (f' notes={dict(ctx.notes)}' if ctx.notes else ''))
    return 0
