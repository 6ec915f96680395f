"""T01: timed operations happen only inside their declared time window."""
from timedops import *
import mesh
import M02

NEEDS = ["mesh"]
RULE = (
    "for every primitive timed operation and every order type of (bounds, elapsed time, inclusion flags, presence of the clock): no path that can be taken outside the declared window uses the channel or succeeds, "
    "inside it some path that can be taken does, and every path that succeeds has used the channel; every multiparty operation on a timed session goes through these primitives with the caller's clocks"
)
EXPLAIN = "All paths of the timed send, send-without-reset and receive; their path conditions evaluated on one representative of every order type of the quantities they compare, against the window table; call-site query over the multiparty layer."
FLOORS = {"operations": 3, "representatives": 6000, "multiparty operations": 60}


def judge(R, F, key):
    r = analyse(R, F, key)
    if r is None:
        return
    ps, tok, names = r
    tag = short(key)
    for p in ps:
        R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p)
        if p.kind == "return" and not failed(p):
            R.check(len(transfer(F, p, tok)) == 1, tag + ":transfers", "%s succeeds after %d transfers" % (tag, len(transfer(F, p, tok))), p)
    for g, E, can in by_rep(ps, tok, names):
        R.count("representatives")
        v = verdict(g)
        cls = group(g)
        if not R.check(bool(can), "%s:%s:no-path" % (tag, cls), "%s does nothing for %s" % (tag, describe(g))):
            continue
        for p in can:
            if v == "out":
                R.check(not transfer(F, p, tok), "%s:%s:outside" % (tag, cls), "%s transfers outside its window: %s" % (tag, describe(g)), p)
                R.check(failed(p), "%s:%s:outside-success" % (tag, cls), "%s succeeds outside its window: %s" % (tag, describe(g)), p)
        if v == "in":
            R.check(any(transfer(F, p, tok) for p in can), "%s:%s:inside" % (tag, cls), "%s refuses inside its window: %s" % (tag, describe(g)), can[0])
    R.sample("%s: %d paths" % (tag, len(ps)))


def has_clocks(f):
    for i, t in enumerate(f.get("inputs", [])):
        if t and t[0] == "ref" and t[2][0] == "adt" and t[2][1].endswith("HashMap"):
            return i
    return None


def multiparty(R, F, fams):
    """every channel operation of an operation that is handed the clocks"""
    for key, f in sorted(F.fns.items()):
        ci = has_clocks(f)
        if ci is None or "body" not in f or key in OPS or f.get("trait") or f["name"].startswith(("fork", "{closure")):
            continue
        ps, I = R.paths_of(F, key, mods=mesh.TIMED)
        if ps is None:
            continue
        n = 0
        for p in ps:
            for e in session_events(F, p):
                h = chan_holder(e[1])
                if h is None or not (h[2] and h[2][0] == "adt" and h[2][1] in TIMED_T):
                    continue
                n += 1
                R.check(mode_of(e) == "timed", short(key) + ":direct", "%s uses the channel of a timed session without looking at its window" % key, p)
                clk = e[4] if e[0] == "send" else e[3]
                R.check(is_arg(clk, ci), short(key) + ":clocks", "%s tests the window against %s, not the clocks it was given" % (key, sh(clk)), p)
        if n:
            R.count("multiparty operations")


def is_arg(v, i):
    while v is not None and v[0] == "t":
        if v[1] == ("arg", i):
            return True
        if v[1][0] == "deref":
            v = ("t", v[1][1], None)
            continue
        return False
    return False


def run(R, B):
    F = B.facts("mesh")
    for key in OPS:
        judge(R, F, key)
    multiparty(R, F, mesh.families(F, mesh.specs_of(B, "mesh", R.tier)))
