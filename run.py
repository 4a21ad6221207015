#!/usr/bin/env python3
"""run.py <property id>: decide one property from /repo's current source"""
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.harness import main  # noqa: E402

if __name__ == "__main__":
    rc = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
