import importlib
import os
import sys


def run(prop):
    import warnings
    warnings.simplefilter("ignore")
    import creole
    repo = os.environ["VERIF_REPO"]
    assert os.path.realpath(creole.__file__).startswith(os.path.realpath(repo) + os.sep), creole.__file__
    from mc import engine
    mod = importlib.import_module("props." + prop.lower())
    try:
        return engine.main(prop, mod.spaces, level=getattr(mod, "LEVEL", "model_checking"),
                           assumptions=getattr(mod, "ASSUMPTIONS", ()), before=getattr(mod, "before", None))
    except engine.CheckError as e:
        sys.stderr.write("check error: %s\n" % e)
        return 3
