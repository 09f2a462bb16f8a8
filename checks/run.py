#!/usr/bin/env python3
"""usage: run.py <property id>   (tier and seed from VERIF_TIER, VERIF_SEED)"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
if len(sys.argv) != 2:
    sys.exit(__doc__)
m = importlib.import_module(sys.argv[1].lower())
sys.exit(lib.main(sys.argv[1].upper(), getattr(m, "LEVEL", "model_checking"), m.run, m.ASSUMPTIONS))
