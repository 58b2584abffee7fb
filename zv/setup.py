#!/usr/bin/env python3
"""builds the MIR extraction driver"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from zv import prog
prog.build_driver()
print("driver built:", prog.DRIVER)
