#!/usr/bin/env python3
"""run.py <property>: decides one property (see DESIGN.md). VERIF_TIER, VERIF_SEED as usual."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbv import core  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.exit(core.run(prop, importlib.import_module("mbv.props." + prop.lower())))
