"""C03: closes of the affine layer wait for every peer and fail when one cancelled or is gone."""
from mesh import *
from C01 import variant, is_signal, signal_of
from B04 import ends_of, which

NEEDS = ["aff"]
RULE = (
    "every close of the affine layer: all sends come before the first receive, one Stop per session, one blocking receive per session; a successful path has heard from every session, each receive succeeded; "
    "the checking form additionally succeeds on no path on which a delivered signal is, or is not known not to be, Cancel, and panics rather than returning an error; the plain form fails on every path on which a send failed"
)
EXPLAIN = "All paths of both affine closes for several numbers of participants: order of channel operations, outcome of every send and receive and decided variant of every received signal against the outcome of the path."
FLOORS = {"closes": 4, "cancelled paths": 2, "lost-peer paths": 8}


def judge(R, F, fams, key, f, checking):
    tag = label(F, key)
    want = set(ends_of(F, fams, f))
    stop, cancel = variant(F, "Stop"), variant(F, "Cancel")
    R.count("closes")
    ps, I = R.paths_of(F, key)
    if ps is None:
        return
    n = 0
    for p in ps:
        if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
            continue
        ses = session_events(F, p)
        sent, heard = [], []
        for e in ses:
            w = which(F, e)
            R.check(w in want, tag + ":session", "%s uses %s" % (tag, sh(e[1])), p)
            if e[0] == "send":
                R.check(not heard, tag + ":order", "%s waits before it has signalled everybody" % tag, p)
                R.check(is_signal(e[2], stop), tag + ":signal", "%s sends %s" % (tag, sh(e[2])), p)
                sent.append(w)
            else:
                R.check(mode_of(e) == "recv", tag + ":poll", "%s does not wait for its peer" % tag, p)
                R.check(set(sent) == want, tag + ":early", "%s waits after %d of %d Stops" % (tag, len(set(sent)), len(want)), p)
                heard.append(w)
        R.check(len(set(sent)) == len(sent) and len(set(heard)) == len(heard), tag + ":twice", "%s uses a session twice" % tag, p)
        lost = [e for e in ses if e[0] == "recv" and tag_of(p, res_of(e)) != 0]
        unsent = [e for e in ses if e[0] == "send" and tag_of(p, res_of(e)) != 0]
        canc = [e for e in ses if e[0] == "recv" and tag_of(p, res_of(e)) == 0 and signal_of(p, res_of(e)) in (cancel, None)]
        R.count("lost-peer paths", 1 if lost else 0)
        if lost:
            R.check(failed(p), tag + ":lost", "%s succeeds although a peer is gone" % tag, p)
        if not checking and unsent:
            R.check(failed(p), tag + ":unsent", "%s succeeds although a Stop could not be delivered" % tag, p)
        if checking:
            R.count("cancelled paths", 1 if canc else 0)
            if canc:
                R.check(failed(p), tag + ":cancelled", "%s succeeds although a peer cancelled" % tag, p)
            if canc or lost:
                R.check(p.kind == "panic", tag + ":panics", "%s does not panic although a peer cancelled or is gone" % tag, p)
        if failed(p):
            continue
        n += 1
        R.check(set(heard) == want and set(sent) == want, tag + ":all", "%s succeeds having heard from %d of %d peers" % (tag, len(heard), len(want)), p)
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)
    R.sample("%s: %d paths" % (tag, len(ps)))


def run(R, B):
    F = B.facts("aff")
    fams = families(F, specs_of(B, "aff", R.tier))
    have = set()
    for key, f in sorted(F.fns.items()):
        if "inputs" in f and "body" in f and f["name"] in ("aff_close", "check_close"):
            ai, mt = mesh_arg(F, fams, f)
            if mt is not None:
                have.add((mt.fam.adt, f["name"]))
                judge(R, F, fams, key, f, f["name"] == "check_close")
    for adt, fam in fams.items():
        if adt != LIB_MESH:
            for n in ("aff_close", "check_close"):
                R.check((adt, n) in have, "closes:%s:%s" % (adt, n), "%s: no %s" % (adt, n))
