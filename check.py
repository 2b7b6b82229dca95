#!/usr/bin/env python3
"""python3 check.py <property id> [--thorough]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib.core import main
sys.exit(main(sys.argv[1:]))
