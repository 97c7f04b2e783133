#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough] [--replay file] [--sub a,b] [--scale x]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import runner  # noqa

try:
    rc = runner.main(sys.argv[1:])
except Exception as e:  # build failure or harness error: neither held nor violated
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
