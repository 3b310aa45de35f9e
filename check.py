#!/usr/bin/env python3
"""check.py <property-id>: decides one property of /repo's working tree.
Exit 0: held on everything explored; exit 1 + VIOLATION line: broken; 2: no answer."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module("comps." + pid.lower())
    ctx = core.Ctx(pid, tier, seed)
    rc = 2
    try:
        try:
            mod.run(ctx)
            ctx.evidence("model_checking", 0, getattr(mod, "ASSUMPTIONS", ()))
            for k in ctx.known:
                print("KNOWN-FINDING: property=%s %s" % (pid, k))
            print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
                pid, ctx.states, ctx.transitions, ctx.traces, ctx.events,
                __import__("time").time() - ctx.t0))
            rc = 0
        except core.Violation as v:
            ctx.evidence("model_checking", 1, getattr(mod, "ASSUMPTIONS", ()))
            print("what: " + v.what)
            print("VIOLATION property=%s replay=%s" % (pid, v.replay))
            rc = 1
        except core.CheckError as e:
            print("ERROR property=%s %s" % (pid, e))
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
