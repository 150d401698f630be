"""harness/run.py ID: decide one property on /repo's working tree."""
import importlib
import sys

import common

MODULES = "checks_orbits checks_transits checks_timing checks_purity checks_gradients checks_misc checks_priors checks_estimators checks_model".split()


def find(pid):
    import os

    for m in MODULES:
        if not os.path.exists(os.path.join(common.HERE, m + ".py")):
            continue
        fn = getattr(importlib.import_module(m), "check_" + pid, None)
        if fn is not None:
            return fn
    raise common.MachineryError("there is no check for " + pid)


if __name__ == "__main__":
    def _run():
        common.import_exoplanet()
        return find(sys.argv[1])()

    common.main(_run)
