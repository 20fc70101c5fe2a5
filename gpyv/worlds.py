"""The package under other values of its five configuration flags: each combination is a separate import of the same source."""
import importlib, os, re, sys, types
from contextlib import contextmanager
from gpyv import core

FLAGS = ('__INCLUDE_SE_KERNEL', '__USE_LIN_KERNEL_HORIZONTAL_OFFSET', '__USE_NON_PURELY_PERIODIC_PER_KERNEL', '__FIX_SIGMOIDAL_KERNELS_SLOPE', '__USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL')
_cache = {}


def _purge():
    got = {n: m for n, m in sys.modules.items() if n == 'GPy_ABCD' or n.startswith('GPy_ABCD.')}
    for n in got: del sys.modules[n]
    return got


def config_module(values):
    src = open(os.path.join(core.REPO, 'GPy_ABCD', 'config.py')).read()
    m = types.ModuleType('GPy_ABCD.config'); m.__file__ = os.path.join(core.REPO, 'GPy_ABCD', 'config.py'); m.__package__ = 'GPy_ABCD'
    for f, v in values.items(): src = re.sub(rf'(?m)^{f}\s*=\s*(True|False)', f'{f} = {v}', src)
    exec(compile(src, m.__file__, 'exec'), m.__dict__)
    for f, v in values.items(): m.__dict__[f] = v
    return m


def load(i):
    """modules of combination i (bit k: FLAGS[k])"""
    if i not in _cache:
        keep = _purge()
        try:
            sys.modules['GPy_ABCD.config'] = config_module({f: bool(i >> k & 1) for k, f in enumerate(FLAGS)})
            pk = importlib.import_module('GPy_ABCD')
            for n in ('KernelExpressions.all', 'KernelExpansion.grammar', 'KernelExpansion.kernelOperations', 'KernelExpansion.kernelInterpretation', 'Models.model', 'Models.modelSearch', 'Kernels.baseKernels', 'Util.modelUtil'):
                importlib.import_module('GPy_ABCD.' + n)
            pk.config = sys.modules['GPy_ABCD.config']
            _cache[i] = {n: m for n, m in sys.modules.items() if n == 'GPy_ABCD' or n.startswith('GPy_ABCD.')}
        finally: _purge(); sys.modules.update(keep)
    return _cache[i]


@contextmanager
def world(i):
    """within it, every lazy import of the package resolves to combination i"""
    mods = load(i)
    keep = _purge(); sys.modules.update(mods)
    try: yield types.SimpleNamespace(se=bool(i & 1), offset=bool(i >> 1 & 1), stdper=bool(i >> 2 & 1), fixed=bool(i >> 3 & 1), indep=bool(i >> 4 & 1), mods=mods)
    finally: _purge(); sys.modules.update(keep)
