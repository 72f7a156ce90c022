import argparse
import importlib
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.filterwarnings("ignore")
from mc import core  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module(f"checks.{a.pid}")
    except Exception as e:
        import traceback

        traceback.print_exc()
        sys.exit(core.import_failed(a.pid, a.tier, seed, e) if core.from_repo(e) else 2)
    rc = (
        core.replay(mod, a.replay)
        if a.replay
        else core.run(mod, a.tier, seed, a.only, a.workers)
    )
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
