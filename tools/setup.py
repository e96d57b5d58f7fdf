#!/usr/bin/env python3
"""setup_cmd: builds the harness once (warms the Go build cache) and checks
that the tools are there. The checks rebuild everything themselves."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Ctx
c = Ctx("setup", "quick", 1)
try:
    c.build()
    try:
        c.build(race=True)
    except Exception as e:
        print("race build not available:", e)
    c.tlc("Export5424")
    print("setup done")
finally:
    c.cleanup()
