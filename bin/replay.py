#!/usr/bin/env python3
"""replay.py FILE: runs the case of a violation report again, against the
current tree, and validates it with the specification it was found with."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Run


def main():
    rep = json.load(open(sys.argv[1]))
    run = Run(rep["property"], "quick", 1)
    try:
        run.build()
        if rep.get("race"):
            run.build(race=True)
        if rep["spec"] == "TraceExample":
            run.build_example("json")
            run.build_example("parseownsyntax")
        case, obs = run.path("case"), run.path("obs")
        open(case, "w").write(json.dumps(rep["case"]) + "\n")
        run.drive(case, obs, driver=run.race_driver if rep.get("race") else None)
        print("observed:", open(obs).read().strip()[:4000])
        bad = run.validate(rep["spec"], obs, workers=1)
        for b in bad:
            print("mismatch:", json.dumps(b))
        print("then:", json.dumps(rep["mismatch"]))
        return 1 if bad else 0
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
