#!/usr/bin/env python3
"""usage: check.py ID [--tier quick|thorough] [--seed N]"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core
from checks import CHECKS


def main():
    args = sys.argv[1:]
    pid = args[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    ck = core.Check(pid, tier, seed)
    try:
        CHECKS[pid](ck)
        rc = ck.finish()
    except core.ToolError as e:
        print(f"{pid}: no answer: {e}", file=sys.stderr)
        # Violations found before the failure stand.
        rc = ck.finish() if ck.violations else 2
    except Exception:
        traceback.print_exc()
        rc = ck.finish() if ck.violations else 2
    sys.stdout.flush()
    sys.exit(rc)


main()
