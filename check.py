#!/usr/bin/env python3
"""Decides one property of fixnum:  check.py ID   (VERIF_TIER, VERIF_SEED)

Exit 0: everything observed is allowed by the specification in spec/.
Exit 1: a VIOLATION line was printed.  Anything else: the check itself failed.
"""
import json, os, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import lib, checks  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    ctx = lib.Context(prop, tier, seed)
    try:
        checks.decide(ctx)
    except lib.ToolError as e:
        print("CHECK FAILED:", e, flush=True)
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK FAILED: timeout:", e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
