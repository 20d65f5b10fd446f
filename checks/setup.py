#!/usr/bin/env python3
"""Builds every harness for every flavour once, so that the checks only rebuild what changed."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B  # noqa: E402
from props import PROPS  # noqa: E402
targets = {(j["harness"], j["flavor"]) for p in PROPS.values() for j in p["jobs"]}
built, failed, log = B.build(targets)
sys.stdout.write(log[-3000:])
print("built", len(built), "failed", sorted(failed))
sys.exit(0)
