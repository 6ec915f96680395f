"""B08: attempting a sequence of steps stops at the first failure and recovers once."""
from core import *

NEEDS = ["bin"]
RULE = (
    "attempt! of k steps (k = 1..4): on every path the steps run in the order written, step i+1 only after step i was decided Ok; "
    "the handler runs exactly once, last, with the error of the failing step, iff a step was decided Err; no step's outcome is left undecided"
)
EXPLAIN = "All paths of the expansions of attempt! with one to four steps over opaque step functions; the macro is a two-rule recursion, so base case and each recursive position are covered."
FLOORS = {"blocks": 4, "paths": 14}


def run(R, B):
    F = B.facts("bin")
    for n in range(1, 5):
        key = "w_bin::attempt_%d" % n
        if not R.check(key in F.fns, "anchor:attempt%d" % n, "attempt! with %d steps no longer expands to a function body" % n):
            continue
        R.count("blocks")
        ps, I = R.paths_of(F, key)
        if ps is None:
            continue
        tag = "attempt%d" % n
        outcomes = set()
        for p in ps:
            R.count("paths")
            if not R.check(p.kind == "return", tag + ":ends", "%s can %s" % (tag, p.kind), p):
                continue
            iv = [e for e in p.ev("invoke")]
            seq = [e[1][1][1] if istok(e[1], "arg") else None for e in iv]
            bad = None
            for i, e in enumerate(iv):
                a = seq[i]
                if bad is not None:
                    # after a failure: only the handler, once, with the error
                    R.check(a == n, tag + ":later", "%s runs step %s after step %d failed" % (tag, a, bad[0]), p)
                    R.check(len(iv) == i + 1, tag + ":handler-once", "%s runs %s after the recovery" % (tag, seq[i + 1 :]), p)
                    R.check(len(e[2]) == 1 and is_fld_of(e[2][0], bad[1], 1, 0), tag + ":error", "%s recovers with %s, not with the error of step %d" % (tag, [sh(x) for x in e[2]], bad[0]), p)
                    break
                R.check(a == i, tag + ":order", "%s runs closure %s as its step %d" % (tag, a, i), p)
                if a == n:
                    R.check(False, tag + ":spurious", "%s runs its recovery although no step failed" % tag, p)
                    break
                t = tag_of(p, e[3])
                if t == 1:
                    bad = (a, e[3])
                elif t is None:
                    R.check(False, tag + ":ignored", "%s does not look at the outcome of step %s" % (tag, a), p)
            if bad is None:
                R.check(seq == list(range(n)), tag + ":all", "%s ends after steps %s without a failure" % (tag, seq), p)
                outcomes.add(None)
            else:
                R.check(seq == list(range(bad[0] + 1)) + [n], tag + ":recovery", "%s runs %s when step %d fails" % (tag, seq, bad[0]), p)
                outcomes.add(bad[0])
            R.sample("%s: runs %s, failing step %s" % (tag, seq, bad[0] if bad else None))
        R.check(outcomes == {None} | set(range(n)), tag + ":outcomes", "%s distinguishes the outcomes %s" % (tag, sorted(map(str, outcomes))))
