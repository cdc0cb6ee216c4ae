"""python -m harness.run PID : run the check of a property (VERIF_TIER, VERIF_SEED).

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: error of the check."""

import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import core

PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def child_env(tmp):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=core.VERIF,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(tmp, "mpl"),
        LC_ALL="C.UTF-8",
        TMPDIR=tmp,
        HYPOTHESIS_NO_PLUGINS="1",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, "hyp"),
    )
    return env


def known_findings(pid):
    """Lines `finding: property=<id> {"sub":..., "case":..., "what":...}`."""
    p = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for line in open(p, encoding="utf8"):
            if line.startswith(f"finding: property={pid} "):
                out.append(json.loads(line.split(" ", 2)[2]))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nshards = int(os.environ.get("VERIF_SHARDS", "8"))
    budget = float(
        os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "3000")
    )
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        procs = []
        for sh in range(nshards):
            out = os.path.join(tmp, f"out{sh}.json")
            log = open(os.path.join(tmp, f"log{sh}"), "w")
            procs.append(
                (
                    out,
                    subprocess.Popen(
                        [PY, "-m", "harness.worker", pid, str(sh), str(nshards),
                         tier, str(seed), out, str(budget)],
                        cwd=core.VERIF, env=child_env(tmp), stdout=log,
                        stderr=subprocess.STDOUT,
                    ),
                )
            )
        shards = []
        errors = []
        for sh, (out, p) in enumerate(procs):
            try:
                p.wait(max(1.0, t0 + budget + 400 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            try:
                r = json.load(open(out))
                shards.append(r["results"])
                if r["error"]:
                    errors.append(r["error"])
            except Exception as e:
                errors.append(
                    f"shard {sh} ended with {p.returncode}: {e}\n"
                    + open(os.path.join(tmp, f"log{sh}")).read()[-3000:]
                )
        return report(pid, tier, seed, shards, errors, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(pid, tier, seed, shards, errors, t0, tmp):
    subs, labels, keys, samples = {}, {}, set(), []
    evaluations = rejected = skipped = 0
    fails = []
    for results in shards:
        for r in results:
            if r["error"]:
                errors.append(r["error"])
            evaluations += r["evaluations"]
            rejected += r["rejected"]
            skipped += r["skipped"]
            s = subs.setdefault(
                r["sub"], dict(evaluations=0, nontrivial=set(), rejected=0,
                               wall_s=0.0)
            )
            s["evaluations"] += r["evaluations"]
            s["rejected"] += r["rejected"]
            s["wall_s"] = round(max(s["wall_s"], r.get("wall", 0.0)), 2)
            s["nontrivial"].update(r["keys"])
            for lab, n in r["labels"].items():
                d = labels.setdefault(r["sub"], {})
                d[lab] = d.get(lab, 0) + n
            for k in r["keys"]:
                keys.add(r["sub"] + k)
            if sum(x["check"] == r["sub"] for x in samples) < 2:
                samples += [dict(check=r["sub"], case=c) for c in r["samples"][:1]]
            if r["fail"]:
                fails.append((r["sub"], r["fail"]))
    for s in subs.values():
        s["distinct_nontrivial"] = len(s.pop("nontrivial"))
    mod_rule = ""
    try:
        core.setup_imports()
        mod = core.load_property(pid)
        mod_rule = mod.RULE
    except Exception as e:
        errors.append(repr(e))
        mod = None

    # known findings: re-run the listed inputs
    known = []
    if mod is not None:
        by = {s.name: s for s in getattr(mod, "FINDING_SUBS", []) + mod.SUBS}
        import contextlib
        import io

        for kf in known_findings(pid):
            with contextlib.redirect_stdout(io.StringIO()):
                status, info = core.run_case(by[kf["sub"]], kf["case"])
            known.append(dict(what=kf["what"], still_fails=status == "violation"))
            if status == "violation":
                print(f"KNOWN-FINDING: property={pid} {kf['what']}")

    def trim(o):
        s = json.dumps(o)
        return o if len(s) < 3000 else s[:3000] + "..."

    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(keys),
            rule=mod_rule,
            samples=[trim(s) for s in samples[:8]],
            outside_domain=rejected,
            not_run_time_budget=skipped,
            checks=subs,
            classification=labels,
            known_findings=known,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(fails),
    )
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    if fails:
        # the simplest failure over the shards
        fails.sort(key=lambda x: (len(json.dumps(x[1]["case"])),
                                  json.dumps(x[1]["case"])))
        sub, fail = fails[0]
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        path = os.path.join(
            core.VERIF, "replays",
            f"{pid}-{sub}-{core.key_of(fail['case'])}.json",
        )
        with open(path, "w") as f:
            json.dump(
                dict(property=pid, sub=sub, seed=seed, tier=tier,
                     case=fail["case"], message=fail["message"]),
                f, indent=1,
            )
        print(f"# {sub}: {fail['message'][:3000]}")
        print(f"# case: {json.dumps(fail['case'])[:3000]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        print("ERROR of the check\n" + "\n".join(errors)[:2500], file=sys.stderr)
        return 2
    print(
        f"{pid} {tier} seed={seed}: {evaluations} cases, {len(keys)} distinct "
        f"non-trivial, {rejected} outside the domain, {ev['wall_s']} s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
