"""python -m harness.replay FILE : re-run a saved case without Hypothesis."""

import json
import sys

from . import core


def main():
    core.setup_imports()
    d = json.load(open(sys.argv[1]))
    mod = core.load_property(d["property"])
    by = {s.name: s for s in getattr(mod, "FINDING_SUBS", []) + mod.SUBS}
    status, info = core.run_case(by[d["sub"]], d["case"])
    print(status)
    print(info)
    return 1 if status == "violation" else 0


sys.exit(main())
