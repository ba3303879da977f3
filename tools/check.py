#!/usr/bin/env python3
"""check.py PROPERTY -- decide one property (tier and seed from VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
REGISTRY = {}
for m in ("c_maps", "c_hash", "c_gc", "c_glob", "c_gpalloc", "c_sort", "c_small", "c_poll", "c_sched", "c_io", "c_rhash", "c_string", "c_pack", "c_module", "c_format", "c_const", "c_rational", "c_prng"):
    REGISTRY.update(importlib.import_module(m).CHECKS)
if __name__ == "__main__":
    vlib.main(REGISTRY)
