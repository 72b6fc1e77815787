"""python3 vf/run.py ID [...]   run the static check of one or more properties"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(12000)

from vf import harness  # noqa: E402
from vf.checks import REGISTRY  # noqa: E402


def main():
    rc = 0
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    for pid in sys.argv[1:]:
        mod, fn = REGISTRY[pid]
        ck = harness.Check(pid, tier, seed)
        m = importlib.import_module("vf.checks." + mod)
        getattr(m, fn)(ck)
        r = ck.finish()
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 2)
