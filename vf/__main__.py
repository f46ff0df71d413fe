import importlib
import multiprocessing
import sys

if __name__ == "__main__":
    multiprocessing.set_start_method("fork")
    cid = sys.argv[1]
    from vf import core, registry
    mod = importlib.import_module("vf.checks." + registry.MODULE[cid])
    sys.exit(core.main(getattr(mod, cid)(), sys.argv[2:]))
