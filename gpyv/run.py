import importlib, json, os, sys, time
from gpyv import core


def main():
    t0 = time.time()
    prop = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = json.load(open(sys.argv[sys.argv.index('--replay') + 1])) if '--replay' in sys.argv else None
    if replay: tier, seed = replay['tier'], replay['seed']
    # JIT is decided before the repository is imported; the module tells through a cheap text attribute
    path = os.path.join(os.path.dirname(__file__), 'props', prop.lower() + '.py')
    if '\nJIT = False' in open(path).read(): os.environ['NUMBA_DISABLE_JIT'] = '1'
    ctx = core.Ctx(prop, tier, seed)
    try: mod = importlib.import_module('gpyv.props.' + prop.lower())
    except Exception as e:
        fr = core.repo_frame(e.__traceback__)
        import traceback; traceback.print_exc()
        if fr:  # the package itself no longer imports / loads
            class mod: RULE = 'import of the package'; LEVEL = 'exploration'; MIN = {}
            ctx.fail('import-failure', error=repr(e), frame=fr)
            return core.finish(mod, ctx, t0)
        return 2
    import GPy_ABCD
    if not os.path.realpath(GPy_ABCD.__file__).startswith(os.path.realpath(core.REPO) + '/'):
        print('ERROR: imported', GPy_ABCD.__file__, 'instead of', core.REPO); return 2
    if hasattr(mod, 'setup'): mod.setup(ctx)
    if replay:
        if replay['case'] is not None: core.run_case(mod, ctx, replay['case'])
        elif hasattr(mod, 'extra'): mod.extra(ctx)
        mod.MIN = {}
        return core.finish(mod, ctx, t0)
    if mod.N[tier]: core.explore(mod, ctx)
    if hasattr(mod, 'extra'):
        ctx.case_i = None
        try: mod.extra(ctx)
        except core.Stop: pass
    return core.finish(mod, ctx, t0)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
