#!/usr/bin/env python3
"""check <property id> [quick|thorough]

Rebuilds the facts from /repo's current tree, applies the rule of one property
and writes /verif/evidence/<id>.json."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "rules"))

import build  # noqa: E402
import core  # noqa: E402


def known():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                # known: property=<id> key=<key> :: <what fails>
                head, what = line[len("known: "):].split(" :: ", 1)
                pid, key = head.split(" key=", 1)
                out.setdefault(pid[len("property="):], {})[key] = what
    return out


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        B = build.Build(VERIF, [], "quick")
        os.makedirs(B.dir, exist_ok=True)
        B.driver()
        print("fact extractor built: " + B.bin)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    mod = importlib.import_module(pid)
    R = core.Rule(pid, tier)
    def late(*_):
        raise RuntimeError("the analysis does not end in time")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("VERIF_LIMIT", "800" if tier == "quick" else "7200")))
    try:
        need = getattr(mod, "NEEDS", ["lib"])
        B = build.Build(VERIF, need, tier)
        B.run(R)
        if B.ok:
            mod.run(R, B)
        if hasattr(mod, "FLOORS") and B.ok:
            for k, v in mod.FLOORS.items():
                R.floor(k, v)
    except Exception as e:  # the analysis cannot interpret the tree: fail closed
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        R.check(False, "analysis-error:%s" % type(e).__name__, "the analysis could not be completed: %s" % tb.splitlines()[-1])
    kn = known().get(pid, {})
    new = {k: v for k, v in R.viol.items() if k not in kn}
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": mod.EXPLAIN,
            "rule": mod.RULE,
            "obligations": R.obl,
            "discharged": R.obl - len(R.viol),
            "functions_analysed": len(R.fns),
            "functions": sorted(core.short(f) for f in R.fns if not f.startswith(("core::", "either::")))[:400],
            "paths": R.paths,
            "instances": R.counts,
            "samples": R.samples,
            "known_findings": sorted(k for k in R.viol if k in kn),
            "violations": list(new.values())[:50],
        },
        "wall_s": round(time.time() - R.t0, 2),
    }
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in sorted(R.viol):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    if new:
        rp = os.path.join(d, pid + ".violation.txt")
        with open(rp, "w") as fh:
            for v in new.values():
                fh.write("rule: %s\nkey: %s\n%s\n" % (mod.RULE, v["key"], v["message"]))
                for t in v["trace"] or []:
                    fh.write("    %s\n" % t)
                fh.write("\n")
        for v in list(new.values())[:12]:
            print("  %s: %s" % (v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: held - %d obligations, %d functions, %d paths, %s (%.1fs)" % (pid, R.obl, len(R.fns), R.paths, R.counts, time.time() - R.t0))
    return 0


sys.exit(main())
