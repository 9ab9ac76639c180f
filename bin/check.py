#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough]"""
import json, os, sys
a = sys.argv[1:]
tier = os.environ.get("VERIF_TIER", "quick")
if "--tier" in a:
    tier = a[a.index("--tier") + 1]
os.environ["VERIF_TIER"] = tier
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import common, checks   # noqa
manifest = json.load(open(os.path.join(common.VERIF, "MANIFEST.json")))
level = {c["property"]: c["level"] for c in manifest["checks"]}
ck = common.Check(a[0], level.get(a[0], "exploration"))
try:
    getattr(checks, a[0])(ck)
except Exception:      # the machinery itself failed: no answer
    import traceback
    traceback.print_exc()
    if ck.violations:
        sys.exit(ck.finish())
    sys.exit(2)
sys.exit(ck.finish())

