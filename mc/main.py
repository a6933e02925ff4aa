import importlib
import json
import logging
import os
import sys
import warnings


def cli():
    warnings.filterwarnings("ignore")
    pid, mode = sys.argv[1], sys.argv[2]
    # Compiling the linking code takes longer than most checks; only the check of the linking rule itself runs the
    # compiled version, the others run the same source interpreted.
    if pid not in ("C06", "C07", "C22"):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    from mc import core

    try:
        import sorcha

        src = os.path.realpath(os.path.dirname(sorcha.__file__))
        if not src.startswith(os.path.realpath(core.REPO) + "/src/"):
            print("sorcha does not come from", core.REPO, ":", src)
            return 2
        logging.getLogger().addHandler(logging.NullHandler())
        logging.disable(logging.CRITICAL)
        mod = importlib.import_module("mc.checks." + pid.lower())
    except ImportError:
        import traceback

        traceback.print_exc()
        return 2
    if mode == "replay":
        with open(sys.argv[3]) as f:
            obj = json.load(f)
        rec = core.Rec()
        rec.shard = obj["shard"]
        if hasattr(mod, "replay") and obj.get("obj") is not None:
            mod.replay(obj["obj"], rec)
        else:
            mod.run(obj["shard"], rec)
        for v in rec.violations:
            print("REPRODUCED", v["sig"], "\n", v["msg"])
        return 1 if rec.violations else 0
    return core.main(mod, mode, int(os.environ.get("VERIF_SEED", "1") or 1))


sys.exit(cli())
