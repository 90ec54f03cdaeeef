#!/usr/bin/env python3
"""Builds the driver once, with and without the race detector, so that the
checks find a warm build cache; checks that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Run

run = Run("setup", "quick", 1)
try:
    run.build()
    run.build(race=True)
    run.build_example("json")
    run.build_example("parseownsyntax")
    run.model("MCWalk")
finally:
    run.close()
