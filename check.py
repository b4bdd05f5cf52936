#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property from /repo's current sources"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import registry
from sa.check import run

if __name__ == "__main__":
    pid = sys.argv[1]
    root = os.environ.get("PXMCMC_ROOT", "/repo")
    sys.exit(run(pid, registry.CHECKS[pid], root))
