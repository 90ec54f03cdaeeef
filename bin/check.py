#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]

Decides one property: exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Run, CheckError
import checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    run = Run(a.id, a.tier, a.seed)
    try:
        run.build()
        return checks.CHECKS[a.id](run, a.tier == "thorough")
    except CheckError as e:
        if run.violations:
            # what was found before stands
            run.log("ended early:", e)
            return run.finish()
        print(f"ERROR property={a.id} {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        if run.violations:
            return run.finish()
        return 2
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
