#!/usr/bin/env python3
"""Builds the MIR extraction driver (offline) and checks that the current tree can be extracted."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import extract
for par in (True, False):
    extract.extract(par)
print('extraction ready')
