#!/usr/bin/env python3
"""evidence.py FILE ID TIER VIOLATIONS WHAT: evidence of a run that ended before the exploration"""
import json, os, sys
f, i, tier, n, what = sys.argv[1:6]
json.dump({"property": i, "tier": "thorough" if tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
           "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "ended_by": what},
           "assumptions": [], "wall_s": 0, "violations": int(n)}, open(f, "w"), indent=1)
