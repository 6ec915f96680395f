"""B04: closing succeeds only after signalling every peer and hearing Stop from each."""
from mesh import *
import B03

NEEDS = ["mesh"]
RULE = (
    "every close operation: on each path all sends come before the first receive, at most one send and one receive per session, every send carries Stop; "
    "on a successful path every session of the endpoint was sent Stop and heard from exactly once, each receive succeeded and its signal was decided to be Stop"
)
EXPLAIN = "All paths of every close operation (binary, three-party, generated for several numbers of participants, interleaved, TCP/UDP, user macros): order of channel operations, payload provenance, and the decided variant of every received signal."
FLOORS = {"closes": 30, "sessions closed": 70}
SIGNAL = "mpstthree::binary::struct_trait::end::Signal"
STOP = 1


def ends_of(F, fams, f):
    """the End sessions a close function is given: list of argument paths"""
    out = []
    for i, t in enumerate(f["inputs"]):
        if t is None or t[0] == "ref":
            continue
        t = F.norm(t)
        if t[0] == "adt" and t[1] == END_T:
            out.append((i, ()))
        m = mesh_ty(F, fams, t)
        if m:
            sl, _, _ = slot_fields(F, m.fam)
            for k in sorted(sl):
                out.append((i, (sl[k],)))
    return out


def stop_variant(F):
    a = F.adts.get(SIGNAL)
    if a is None:
        return None
    for i, v in enumerate(a["variants"]):
        if v[0] == "Stop":
            return i
    return None


def which(F, e):
    """(argument, field path) of the session of a channel event"""
    h = chan_holder(e[1])
    if h is None:
        return None
    r, path = root(h)
    if not istok(r, "arg"):
        return None
    return r[1][1], tuple(i for v, i in path)


def judge(R, F, fams, key, f, tag, ends):
    stop = stop_variant(F)
    ps, I = R.paths_of(F, key, mods=TIMED)
    R.count("closes")
    if ps is None:
        return
    want = set(ends)
    n = 0
    for p in ps:
        if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
            continue
        ses = session_events(F, p)
        waiting = False
        sent, heard = {}, {}
        for e in ses:
            w = which(F, e)
            if not R.check(w in want, tag + ":session", "%s uses %s, which is no session of its endpoint" % (tag, sh(e[1])), p):
                continue
            if e[0] == "send":
                R.check(not waiting, tag + ":order", "%s waits for a peer before it has signalled all of them" % tag, p)
                v = e[2]
                R.check(v is not None and v[0] == "a" and v[1][0] == "adt" and v[1][1] == SIGNAL and v[2] == stop, tag + ":signal", "%s sends %s instead of Stop" % (tag, sh(v)), p)
                sent.setdefault(w, []).append(e)
            else:
                waiting = True
                R.check(mode_of(e) == "recv", tag + ":poll", "%s does not wait for its peer (%s)" % (tag, mode_of(e)), p)
                # nothing is awaited before every session has been sent its Stop
                miss = sorted(want - set(sent))
                R.check(not miss, tag + ":early", "%s waits before it has signalled %d of its sessions" % (tag, len(miss)), p)
                heard.setdefault(w, []).append(e)
        for w, l in list(sent.items()) + list(heard.items()):
            R.check(len(l) == 1, tag + ":twice", "%s uses one session %d times" % (tag, len(l)), p)
        if failed(p):
            continue
        n += 1
        R.check(set(heard) == want, tag + ":all", "%s succeeds having heard from %d of %d sessions" % (tag, len(heard), len(want)), p)
        for w, l in heard.items():
            R.count("sessions closed")
            e = l[0]
            res = res_of(e)
            sig = [v for t, v in p.tags.items() if is_fld_of(t, res, 0, 0)]
            R.check(tag_of(p, res) == 0 and sig == [stop], tag + ":stop", "%s succeeds although the signal of a session was %s" % (tag, "never looked at" if not sig else "variant %s" % sig), p)
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)
    R.sample("%s: %d sessions, %d paths" % (tag, len(want), len(ps)))


def closes(F, fams):
    for key, f in sorted(F.fns.items()):
        if "inputs" not in f or "body" not in f or f.get("trait") or "{closure" in key:
            continue
        if not re.match(r"close(_|$)", f["name"]):
            continue
        ends = ends_of(F, fams, f)
        if ends:
            yield key, f, ends


def run(R, B):
    for name in NEEDS:
        F = B.facts(name)
        fams = families(F, specs_of(B, name, R.tier))
        have = set()
        for key, f, ends in closes(F, fams):
            if name != NEEDS[0] and key.startswith("mpstthree::"):
                continue
            tag = label(F, key)
            ai, mt = mesh_arg(F, fams, f)
            for t in f["inputs"]:
                m = mesh_ty(F, fams, t)
                if m is not None:
                    have.add(m.fam.adt)
            judge(R, F, fams, key, f, tag, ends)
        for adt, fam in fams.items():
            R.check(adt in have, "closes:" + adt, "%s: no close operation" % adt)
