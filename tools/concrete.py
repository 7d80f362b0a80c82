"""Development aid: run every configuration of every check concretely (the replay path) on the
current tree; a harness error here would turn counterexamples into 'does not reproduce'."""
import glob
import importlib
import os
import sys
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def one(a):
    import warnings

    warnings.filterwarnings("ignore")
    from symt import harness as H

    name, i, tier = a
    mod = importlib.import_module("checks." + name)
    cfg = mod.configs(tier)[i]
    try:
        bad, why, _ = H.replay(mod, cfg, {}, 1)
    except BaseException as e:  # noqa: BLE001
        return name, cfg["name"], "EXC", repr(e)
    return name, cfg["name"], [b for b in bad][:1], (why or "")[-400:]


if __name__ == "__main__":
    tier = os.environ.get("VERIF_TIER", "quick")
    from symt import harness as H  # noqa: F401

    jobs = []
    for f in sorted(glob.glob("checks/c[0-9]*_*.py")):
        n = os.path.basename(f)[:-3]
        if len(sys.argv) > 1 and n[:3].upper() not in sys.argv[1:]:
            continue
        jobs += [(n, i, tier) for i in range(len(importlib.import_module("checks." + n).configs(tier)))]
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(one, jobs, chunksize=4):
            if r[2] or r[3]:
                print(*r)
    print(len(jobs), "configurations")
