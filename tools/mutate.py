#!/opt/venv/bin/python
"""Mutation survey: plants every small edit of a fixed list of kinds, one at a time, in copies of the package, runs shortened checks on each until one reports a violation, and the
repository's tests on those no check reported. What survives both is an equivalent edit or a gap in the checks, to be looked at by hand.

usage: mutate.py list                      prints the edits
       mutate.py run OUT.jsonl [part/parts] [files...]    (resumes: edits already in OUT are skipped)
"""
import warnings; warnings.simplefilter("ignore")
import ast, copy, json, os, re, shutil, signal, subprocess, sys, time, hashlib
REPO = os.environ.get('MUT_REPO', '/repo'); HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); PK = 'GPy_ABCD'
SCRATCH = os.environ.get('MUT_SCRATCH', '/tmp/mut')
SKIP = ('benchmarking.py', 'numba_types.py', '__init__.py', 'all.py')
PROPS = {  # which checks judge which file, the quickest and most direct ones first
    'grammar.py': 'C07 C06 C24 C29 C31 C33 C04 C22', 'kernelExpressionOperations.py': 'C06 C07 C04 C31 C33', 'kernelInterpretation.py': 'C16 C17 C15 C20 C29 C35',
    'kernelOperations.py': 'C14 C15 C09 C08 C16 C29 C20 C01', 'base.py': 'C01 C02 C04 C05 C14 C15 C03 C06 C07 C31 C20 C33', 'change.py': 'C01 C02 C03 C04 C05 C08 C14 C15 C16 C06 C07 C09 C29 C31 C20 C33',
    'commutative_base.py': 'C01 C02 C03 C04 C05 C14 C15 C06 C07 C16 C31 C20 C33', 'commutatives.py': 'C01 C03 C08 C09 C14 C15 C16 C05 C29 C02 C04 C07 C31 C20',
    'baseKernels.py': 'C08 C10 C09 C29 C13 C31', 'changeOperators.py': 'C08 C11 C12 C13 C09 C29 C19 C31 C32', 'changeWindowShiftedSides.py': 'C29 C13 C11 C12', 'changeWindowThreePart.py': 'C29 C13 C11 C12',
    'linearKernel.py': 'C10 C12 C11 C29 C13', 'linearOffsetKernel.py': 'C10 C12 C11 C08 C13 C19', 'periodicKernel.py': 'C10 C12 C11 C08 C13 C19', 'sigmoidalKernels.py': 'C10 C12 C11 C08 C13 C15',
    'model.py': 'C18 C19 C20 C30 C26 C35 C25 C31 C32 C34', 'modelSearch.py': 'C21 C22 C23 C24 C26 C25 C35 C30 C32 C34 C31', 'dataAndPlottingUtil.py': 'C27 C35', 'genericUtil.py': 'C28 C01 C07 C21 C22 C33',
    'kernelUtil.py': 'C35 C08', 'modelUtil.py': 'C18 C20 C35', 'config.py': 'C08 C29 C16'}
SLOW = {'C25': 60, 'C30': 60, 'C31': 60, 'C32': 60, 'C33': 60, 'C34': 90, 'C29': 40, 'C35': 40}
CAP = float(os.environ.get('MUT_CAP', 14))


def edits(path):
    src = open(path).read(); tree = ast.parse(src); lines = src.split('\n')
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode(); pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    res = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): docs.add(n.body[0])
    indoc = {id(x) for d in docs for x in ast.walk(d)}
    annots = {id(x) for n in ast.walk(tree) for f in ('annotation', 'returns') for x in ast.walk(getattr(n, f, None) or ast.Pass())}
    infstr = {id(x) for n in ast.walk(tree) if isinstance(n, ast.JoinedStr) for x in ast.walk(n)}
    def add(n, new, kind):
        a, b = pos(n); old = raw[a:b].decode()
        if isinstance(new, ast.AST): new = ast.unparse(new)
        if isinstance(n, ast.expr): new = '(' + new + ')' if not isinstance(n, (ast.Constant, ast.Name)) or new.startswith('-') else new
        if new != old: res.append((n.lineno, kind, a, b, old, new))
    class_level = {id(s) for c in ast.walk(tree) if isinstance(c, (ast.ClassDef, ast.Module)) for s in c.body}
    for n in ast.walk(tree):
        if id(n) in indoc or id(n) in annots: continue
        if id(n) in infstr and not isinstance(n, ast.JoinedStr): continue
        c = copy.deepcopy
        if isinstance(n, ast.Compare):
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.GtE, ast.LtE], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for a in alt.get(type(n.ops[0]), []): m = c(n); m.ops[0] = a(); add(n, m, 'compare')
        elif isinstance(n, ast.BoolOp):
            m = c(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); add(n, m, 'bool')
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]; add(n, vs[0] if len(vs) == 1 else ast.BoolOp(n.op, vs), 'drop-operand')
        elif isinstance(n, ast.UnaryOp): add(n, n.operand, 'unary')
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}.get(type(n.op))
            if alt: m = c(n); m.op = alt(); add(n, m, 'arith')
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)): add(n, n.left, 'left-only'); add(n, n.right, 'right-only')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False: add(n, repr(not n.value), 'const')
            elif isinstance(n.value, (int, float)): add(n, repr(n.value + 1), 'const'); (n.value and add(n, '0' if n.value == 1 else repr(n.value * 1.01) if isinstance(n.value, float) else repr(n.value - 1), 'const'))
            elif isinstance(n.value, str) and n.value and len(n.value) < 30: add(n, repr(n.value + 'x') , 'string')
            elif n.value is None: pass
        elif isinstance(n, ast.IfExp):
            add(n, n.body, 'if-true'); add(n, n.orelse, 'if-false')
        elif isinstance(n, (ast.If, ast.While)) and isinstance(n, ast.If):
            add(n.test, 'True', 'cond'); add(n.test, 'False', 'cond')
        elif isinstance(n, ast.Call):
            f = n.func; name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if name in ('deepcopy', 'copy', 'list', 'sorted', 'unique', 'tuple', 'set', 'flatten', 'abs', 'reversed', 'simplify', 'rstrip', 'strip', 'reshape', 'Counter', 'freeze', 'squeeze') :
                if n.args: add(n, n.args[0], 'unwrap')
                elif isinstance(f, ast.Attribute): add(n, f.value, 'unwrap')
            elif isinstance(f, ast.Attribute) and not n.args and not n.keywords: add(n, f.value, 'unwrap')
            for a, b in (('any', 'all'), ('all', 'any'), ('min', 'max'), ('max', 'min'), ('maximum', 'minimum'), ('minimum', 'maximum'), ('zip', None)):
                if name == a and b: m = c(n); (setattr(m.func, 'id', b) if isinstance(f, ast.Name) else setattr(m.func, 'attr', b)); add(n, m, 'call')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1): m = c(n); m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]; add(n, m, 'swap-args')
                m = c(n); m.args.pop(); add(n, m, 'drop-arg')
            for i in range(len(n.keywords)): m = c(n); m.keywords.pop(i); add(n, m, 'drop-kw')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            m = c(n); m.slice = ast.Slice(); add(n, m, 'slice')
        elif isinstance(n, ast.comprehension): pass
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            for gi, g in enumerate(n.generators):
                for k in range(len(g.ifs)): m = c(n); m.generators[gi].ifs.pop(k); (add(n, m, 'no-filter') if not (isinstance(n, ast.GeneratorExp) and raw[pos(n)[0]:pos(n)[0]+1] != b'(') else None)
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Assert, ast.Break, ast.Continue)) or isinstance(n, ast.Assign) and id(n) not in class_level: add(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None:
            if isinstance(n.value, ast.Tuple): pass
            elif 'self' in ast.unparse(n.value): pass
        elif isinstance(n, ast.Attribute) and n.attr in ('left', 'right') and isinstance(n.ctx, ast.Load): m = c(n); m.attr = {'left': 'right', 'right': 'left'}[n.attr]; add(n, m, 'attr')
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            for i in range(len(n.elts)): m = c(n); m.elts.pop(i); add(n, m, 'drop-elt') if isinstance(n, ast.List) else None
            m = c(n); m.elts[0], m.elts[1] = m.elts[1], m.elts[0]; add(n, m, 'swap-elts')
        elif isinstance(n, ast.Dict) and len(n.keys) >= 2:
            for i in range(len(n.keys)): m = c(n); m.keys.pop(i); m.values.pop(i); add(n, m, 'drop-elt')
    out, seen = [], set()
    for e in sorted(res):
        new = raw[:e[2]] + e[5].encode() + raw[e[3]:]
        try: h = ast.dump(ast.parse(new))
        except SyntaxError: continue
        if h in seen or h == ast.dump(tree): continue
        seen.add(h); out.append((*e, new))
    return out


def all_edits(files=None):
    res = []
    for dp, _, fs in sorted(os.walk(f'{REPO}/{PK}')):
        for f in sorted(fs):
            if not f.endswith('.py') or f in SKIP or files and f not in files: continue
            for ln, kind, a, b, old, new, src in edits(f'{dp}/{f}'):
                rel = os.path.relpath(f'{dp}/{f}', REPO)
                res.append(dict(id=hashlib.md5(src).hexdigest()[:10], file=rel, line=ln, kind=kind, old=old, new=new, src=src))
    return res


def judge(prop, d, cap):
    """runs cases of one check on the copy in d until a violation, in a child of this process; (mechanism or None, note)"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        os.setsid(); os.close(r); out = b''
        try:
            os.environ.update(GPYV_REPO=d, GPYV_HOME=d + '/home', PYTHONPATH=f'{d}:{HOME}', VERIF_SEED='1', VERIF_TIER='quick')
            sys.path[:0] = [d, HOME]; os.chdir(d)
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            import importlib
            from gpyv import core
            ctx = core.Ctx(prop, 'quick', 1)
            try:
                mod = importlib.import_module('gpyv.props.' + prop.lower())
                if hasattr(mod, 'setup'): mod.setup(ctx)
                t0 = time.time()
                for i in range(mod.N['quick']):
                    if time.time() - t0 > cap or ctx.violations or len(ctx.errors) > 2: break
                    core.run_case(mod, ctx, i)
                if not ctx.violations and hasattr(mod, 'extra') and mod.N['quick'] == 0:
                    try: mod.extra(ctx)
                    except core.Stop: pass
            except Exception as e:
                if core.repo_frame(e.__traceback__): ctx.violations['import-failure'] = repr(e)
                else: raise
            known = core.known_findings(prop)
            v = [m for m in ctx.violations if m not in known]
            out = json.dumps([v[:2], ctx.errors[:1]]).encode()
        except BaseException as e:
            import traceback; out = json.dumps([[], ['harness: ' + traceback.format_exc()[-600:]]]).encode()
        try: os.write(w, out[:60000])
        finally: os._exit(0)
    os.close(w); t0 = time.time(); import select
    data = b''
    while True:
        x = select.select([r], [], [], 1)[0]
        if x:
            c = os.read(r, 65536)
            if not c: break
            data += c
        elif time.time() - t0 > cap + 150: data = json.dumps([['HANG'], []]).encode(); break
    os.close(r)
    try: os.killpg(pid, signal.SIGKILL)
    except OSError: pass
    os.waitpid(pid, 0)
    try: return json.loads(data)
    except ValueError: return [['DIED'], []]


def tests(d):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'NUMBA_DISABLE_JIT')}; env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    try: r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=200', '-W', 'ignore'], cwd=d, env=env, capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired: return 'timeout'
    return 'pass' if r.returncode == 0 else 'fail'


def run(out, part, parts, files):
    os.environ.update(NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    import numpy, scipy, scipy.stats, scipy.special, GPy, matplotlib.pyplot  # the children are forked from here
    done = {json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
    d = f'{SCRATCH}/{part}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/home')
    for n in os.listdir(REPO):
        if n in ('.git',): continue
        (shutil.copytree if os.path.isdir(f'{REPO}/{n}') else shutil.copy2)(f'{REPO}/{n}', f'{d}/{n}')
    shutil.copy2(f'{HOME}/known_findings.txt', d + '/home'); shutil.copy2(f'{HOME}/run.sh', d + '/home'); os.symlink(HOME + '/gpyv', d + '/home/gpyv')
    for j, m in enumerate(all_edits(files)):
        if j % parts != part or m['id'] in done: continue
        orig = open(f'{REPO}/{m["file"]}', 'rb').read(); t0 = time.time()
        with open(f'{d}/{m["file"]}', 'wb') as f: f.write(m.pop('src'))
        m.update(caught=None, notes={})
        for p in PROPS[os.path.basename(m['file'])].split():
            v, err = judge(p, d, SLOW.get(p, CAP))
            if err: m['notes'][p] = err[0][-300:]
            if v: m['caught'] = [p, v[0]]; break
        if not m['caught']: m['tests'] = tests(d)
        m['s'] = round(time.time() - t0, 1)
        with open(f'{d}/{m["file"]}', 'wb') as f: f.write(orig)
        with open(out, 'a') as f: f.write(json.dumps(m) + '\n')
    shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        es = all_edits(sys.argv[2:]); print(len(es))
        from collections import Counter
        print(Counter(os.path.basename(e['file']) for e in es)); print(Counter(e['kind'] for e in es))
    else:
        a, b = (sys.argv[3] if len(sys.argv) > 3 else '0/1').split('/')
        run(sys.argv[2], int(a), int(b), sys.argv[4:])
