#!/usr/bin/env python3
"""Builds the framework once: TLC kernel, library objects, all recorders."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
os.makedirs(CACHE, exist_ok=True)
kernel()
b = build([])
print("library objects built in %.0f s" % STATS["build_s"])
