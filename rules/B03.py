"""B03: losing the peer always surfaces, and is never turned into success."""
from mesh import *

NEEDS = ["mesh", "bin", "aff"]
RULE = (
    "every operation that waits on a session: a path on which a receive failed, or on which the outcome of a receive was not looked at, fails and runs no continuation; "
    "every operation that only sends and can report a failure fails on each path on which a send failed, or whose outcome was not looked at; one that cannot report a failure does not panic because of a failed send"
)
EXPLAIN = "All paths of all operations (binary, timed, three-party, generated, TCP/UDP) on which a channel operation can report a disconnected peer; the outcome of the path is compared with the outcomes of its channel operations."
FLOORS = {"waiting operations": 800, "affine sends": 60, "plain sends": 300, "lost-peer paths": 1300}

SESSION_LIKE = SESSION_ADTS


def mentions_endpoint(F, fams, t):
    if t is None:
        return False
    if t[0] == "adt":
        if t[1] in SESSION_LIKE or t[1] in fams:
            return True
        return any(mentions_endpoint(F, fams, x) for x in t[2])
    if t[0] == "tuple":
        return any(mentions_endpoint(F, fams, x) for x in t[1])
    return False


def operations(F, fams):
    """functions that are given an endpoint to use"""
    for key, f in sorted(F.fns.items()):
        if "inputs" not in f or "body" not in f or f.get("trait") or "{closure" in key:
            continue
        if f["crate"] not in F.crates or key.startswith(("core::", "either::", "std::", "alloc::")):
            continue
        if any(mentions_endpoint(F, fams, t) for t in f["inputs"]):
            yield key, f


def result_type(f):
    t = f["body"]["locals"][0][0]
    return t is not None and t[0] == "adt" and t[1] == "core::result::Result"


def refused(p):
    """the path reports a failure, possibly inside a pair it returns"""
    if failed(p):
        return True
    v = p.value
    return p.kind == "return" and v is not None and v[0] == "a" and v[1][0] == "tuple" and any(is_err(x) for x in v[3])


def polls_only(F, ps):
    l = [mode_of(e) for p in ps for e in session_events(F, p) if e[0] == "recv"]
    return l and all(m == "try_recv" for m in l)


def payload_sends(F, ps):
    """what is sent is a payload with a continuation, not a signal"""
    l = [e[2] for p in ps for e in session_events(F, p) if e[0] == "send"]
    return l and all(v is not None and v[0] == "a" and v[1][0] == "tuple" and len(v[3]) == 2 for v in l)


def judge(R, F, fams, key, f):
    ps, I = R.paths_of(F, key, mods=TIMED)
    if ps is None:
        return
    ai, mt = mesh_arg(F, fams, f)
    tag = brief(F, fams, key, mt) if mt is not None and mt.head() else label(F, key)
    recvs = any(e[0] == "recv" for p in ps for e in session_events(F, p))
    sends = any(e[0] == "send" for p in ps for e in session_events(F, p))
    if polls_only(F, ps) and payload_sends(F, ps):
        # looks for a signal without waiting, then sends: a send (C01), not an operation that waits
        if result_type(f):
            R.count("affine sends")
            for p in ps:
                lost = [e for e in session_events(F, p) if e[0] == "send" and tag_of(p, res_of(e)) != 0]
                if lost:
                    R.count("lost-peer paths")
                    how = "failed" if tag_of(p, res_of(lost[0])) == 1 else "was not looked at"
                    R.check(refused(p), tag + ":send", "%s reports success on a path on which a send %s" % (tag, how), p)
    elif recvs:
        R.count("waiting operations")
        for p in ps:
            rs = [e for e in session_events(F, p) if e[0] == "recv"]
            # a poll that found nothing may be repeated: of a sequence of polls the last one counts (B07, C01)
            lost = [e for e in rs if tag_of(p, res_of(e)) != 0 and (mode_of(e) != "try_recv" or e is rs[-1])]
            if not lost or p.kind == "cut":
                continue  # a repeated poll (whether it may repeat for ever is not a matter of success)
            R.count("lost-peer paths")
            e = lost[0]
            how = "failed" if tag_of(p, res_of(e)) == 1 else "was not looked at"
            R.check(refused(p), tag + ":receive", "%s succeeds on a path on which a receive %s" % (tag, how), p)
            if how == "failed":
                k = p.events.index(e)
                R.check(not [x for x in p.events[k:] if x[0] == "invoke" and istok(x[1], "arg")], tag + ":branch", "%s runs a continuation after a failed receive" % tag, p)
    elif sends and result_type(f):
        R.count("affine sends")
        for p in ps:
            lost = [e for e in session_events(F, p) if tag_of(p, res_of(e)) != 0]
            if lost:
                R.count("lost-peer paths")
                how = "failed" if tag_of(p, res_of(lost[0])) == 1 else "was not looked at"
                R.check(refused(p), tag + ":send", "%s reports success on a path on which a send %s" % (tag, how), p)
    elif sends:
        R.count("plain sends")
        for p in ps:
            lost = [e for e in session_events(F, p) if tag_of(p, res_of(e)) == 1]
            if lost:
                R.check(not failed(p), tag + ":plain", "%s fails because its peer is gone" % tag, p)
    R.sample("%s: %d paths" % (tag, len(ps)))


def run(R, B):
    for name in NEEDS:
        F = B.facts(name)
        fams = families(F, specs_of(B, name, R.tier))
        for key, f in operations(F, fams):
            if name != NEEDS[0] and key.startswith("mpstthree::"):
                continue
            if f["crate"] == "w_aff" and f["name"].startswith("watch"):
                continue  # the broadcaster polls until everybody has stopped: C02
            judge(R, F, fams, key, f)
