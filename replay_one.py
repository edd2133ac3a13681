#!/usr/bin/env python3
"""Re-run saved cases without Hypothesis: replay_one.py <ID> FILE...  (exit 1 and FAILED lines if any fails)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pbt import bootstrap  # noqa: E402

bootstrap.setup()
from pbt import core  # noqa: E402

prop = core.load(sys.argv[1])
bad = 0
for path in sys.argv[2:]:
    c = json.load(open(path))
    try:
        prop.sub(c["sub"]).run(c["case"])
        print("passed", path)
    except core.HarnessError as exc:
        print("ERROR", path, exc)
        sys.exit(2)
    except Exception as exc:
        bad += 1
        print("FAILED %s :: %s" % (path, core.describe(exc).replace("\n", " ")))
sys.exit(1 if bad else 0)
