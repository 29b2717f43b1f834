#!/usr/bin/env python3
"""Checks that the tools are there and that the harness builds."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
w = Work()
try:
    build(w)
finally:
    w.close()
print("ok")
