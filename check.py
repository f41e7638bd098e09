#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current sources."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf import core
sys.exit(core.main(sys.argv[1:]))
