"""Plants, validates and tries bugs: python3 tools/seed.py SPEC.py [id ...]
SPEC defines SEEDS = [dict(id, prop, file, edits=[(old, new)...] or files={file: edits}, demo=python text, needs, breaks)].
Each kept seed goes to seeded/<id>/; everything is tried on scratch copies under /tmp."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'bfcd02b'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg'}
ENV.pop('PYTHONPATH', None)
DEMO = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=%s MPLBACKEND=Agg PYTHONPATH="$PWD" OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env={**ENV, **kw})


def one(s, checks=None):
    id = s['id']; d = f'{HOME}/seeded/{id}'; w = f'/tmp/seedw/{id}'; out = []
    shutil.rmtree(w, ignore_errors=True); shutil.copytree('/repo', w, symlinks=True)
    try:
        for f, edits in (s.get('files') or {s['file']: s['edits']}).items():
            p = f'{w}/GPy_ABCD/{f}'; t = open(p).read()
            base = sh(f'git show {BASE}:GPy_ABCD/{f}', '/repo').stdout
            for a, b in edits:
                if t.count(a) != 1: return id, f'BAD EDIT: {t.count(a)} occurrences of {a!r}'
                t = t.replace(a, b)
            open(p, 'w').write(t)
        diff = sh('git diff', w).stdout
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base.splitlines(): out.append('NOTE not an original line: ' + l[:80])
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(s['demo'].strip() + '\n')
        open(f'{d}/demo.sh', 'w').write(DEMO % s.get('nojit', 1)); os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh', '/repo'); r1 = sh(f'bash {d}/demo.sh', w)
        if r0.returncode != 0: out.append('DEMO FAILS UNPATCHED ' + r0.stderr[-600:])
        if r1.returncode == 0: out.append('DEMO PASSES PATCHED')
        else: out.append('demo: ' + (r1.stderr.strip().splitlines() or ['?'])[-1][:160])
        t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 -W ignore 2>&1 | tail -4', w).stdout
        if '158 passed' not in t: out.append('TESTS: ' + t[-300:])
        if not any(x.startswith(('DEMO', 'TESTS')) for x in out): out += run_checks(w, checks or [s['prop']])
    finally: shutil.rmtree(w, ignore_errors=True)
    return id, '\n    '.join(out)


def run_checks(w, props):
    out = []
    for p in props:
        t0 = time.time()
        hc = f'{w}_home'; os.makedirs(hc, exist_ok=True)
        for x in ('gpyv', 'run.sh', 'known_findings.txt'): sh(f'cp -r {HOME}/{x} {hc}/', '/')
        r = sh(f'bash {hc}/run.sh {p} quick', hc, GPYV_REPO=w, VERIF_SEED='1')
        m = re.findall(r'mechanism=(\S+)', r.stdout)
        out.append(f'{p}: rc={r.returncode} {"CAUGHT" if r.returncode == 1 else "MISSED"} {m[:4]} {time.time()-t0:.0f}s' + ('' if r.returncode == 1 else ' ' + r.stdout[-700:] + r.stderr[-300:]))
        shutil.rmtree(hc, ignore_errors=True)
    return out


if __name__ == '__main__':
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns['SEEDS']:
        if not want or s['id'] in want:
            print('%s\n    %s' % one(s), flush=True)
