#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough]: decide one property on
/repo's current source. Never imports or runs code of /repo."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pwcheck.core import run_main
run_main(sys.argv[1:])
