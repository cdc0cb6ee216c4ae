"""One shard: python -m harness.worker PID SHARD NSHARDS TIER SEED OUT DEADLINE"""

import contextlib
import io
import json
import resource
import sys
import time

from . import core


LIMIT = 3 << 30  # bytes of address space


def main():
    pid, shard, nshards, tier, seed, out, budget = sys.argv[1:8]
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    deadline = time.time() + float(budget)
    results = []
    err = None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (LIMIT, LIMIT))
    except (ValueError, OSError):
        pass
    try:
        core.setup_imports()
        mod = core.load_property(pid)
        subs = {s.name: s for s in mod.SUBS}
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            if shard == 0:
                # replay tier: saved minimal cases, no search
                reg = dict(sub="regressions", evaluations=0, rejected=0,
                           skipped=0, keys=[], labels={}, samples=[],
                           error=None, fail=None)
                for name, case in core.regression_cases(pid):
                    status, info = core.run_case(subs[name], case)
                    reg["evaluations"] += 1
                    if status == "ok" and info.get("nontrivial", True):
                        reg["keys"].append(core.key_of(case))
                    if status == "violation":
                        reg["sub"] = name
                        reg["fail"] = dict(case=case, message=info)
                        break
                results.append(reg)
            if not any(r["fail"] for r in results):
                for i, sub in enumerate(mod.SUBS):
                    ns = min(sub.shards or nshards, nshards)
                    if shard >= ns:
                        continue
                    total = sub.thorough
                    if tier == "quick":
                        total = sub.quick * getattr(mod, "SCALE", 4)
                    n = max(1, -(-total // ns))
                    s = core.Search(
                        pid, sub, n,
                        core.derive_seed(seed, pid, sub.name, shard),
                        deadline,
                    )
                    t0 = time.time()
                    r = s.run()
                    r["wall"] = time.time() - t0
                    results.append(r)
                    sink.truncate(0)
                    sink.seek(0)
                    if r["fail"] or r["error"]:
                        break
    except BaseException:
        import traceback

        err = traceback.format_exc()
    with open(out, "w") as f:
        json.dump(dict(results=results, error=err), f)


main()
