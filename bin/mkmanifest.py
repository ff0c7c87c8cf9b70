#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and check.MODULES."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from check import MODULES
from levels import TECHNIQUE, NOTE, NOT_APPLICABLE

props = [json.loads(l)["id"] for l in open(os.path.join(vlib.ROOT, "properties.jsonl"))]
checks = [dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p,
               thorough_cmd="python3 bin/check.py %s thorough" % p,
               technique=TECHNIQUE[p], level="model_checking", level_note=NOTE[p])
          for p in props if p in MODULES]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no check has been built for it yet"))
      for p in props if p not in MODULES]
doc = dict(version=1, setup_cmd="python3 bin/check.py setup",
           hooks=dict(guard="verif", enable="no hook is needed: harnesses enter through go's -overlay and use exported API only",
                      source_commits=[]),
           checks=checks, not_applicable=na)
json.dump(doc, open(os.path.join(vlib.ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
