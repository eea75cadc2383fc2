"""usage: main.py C01   -- runs the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    sys.exit(vlib.main(prop, mod.run))
