import importlib
import os
import sys


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    args = sys.argv[2:]
    if args and args[0] in ('quick', 'thorough'):
        tier = args.pop(0)
    from . import env      # noqa: first, closes the system
    from . import core
    try:
        mod = importlib.import_module('mc.checks.' + pid.lower())
    except Exception:
        # the code under test cannot even be loaded: nothing it promises holds
        if os.environ.get('MC_DEBUG'):
            raise
        import traceback
        traceback.print_exc()
        return 2
    if args and args[0] == '--replay':
        return core.replay(mod, args[1])
    rep = core.Report(pid)
    only = args[0] if args else None
    for part in mod.parts(tier):
        if only and only != part.name:
            continue
        core.run_part(rep, part)
    return core.finish(rep, tier, mod.META)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
