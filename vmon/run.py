import importlib
import sys


def go():
    import jax
    prop = sys.argv[1]
    if prop.upper() != "C20":  # C20 observes the default (single) precision
        jax.config.update("jax_enable_x64", True)
    mod = importlib.import_module("vmon.checks." + prop.lower())
    from vmon import core
    return core.main(mod, sys.argv[2:])


if __name__ == "__main__":
    try:
        rc = go()
    except SystemExit:
        raise
    except BaseException:  # an error of the check itself: neither held nor violated
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
