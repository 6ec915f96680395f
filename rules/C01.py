"""C01: cancellation-aware sends detect a cancellation and never report success on it."""
from mesh import *
import M02
from B04 import SIGNAL

NEEDS = ["aff", "mesh"]
RULE = (
    "every cancellation-aware send: before anything else exactly one poll (never a wait) of the session with the broadcaster; on every path on which the poll delivered Cancel nothing is sent and the operation fails; on every other path the message goes out as M02 requires and a failed send is a failure; "
    "every cancelling send: on every path exactly one send, of Cancel, on the session with the broadcaster and before the endpoint is dropped, and no path succeeds; "
    "cancel drops its endpoint without any channel operation"
)
EXPLAIN = "All paths of every cancellation-aware send, cancelling send and cancel operation (expansions for several numbers of participants, every ordered pair): order of channel operations, decided variant of the polled signal, outcome of the path."
FLOORS = {"checking sends": 5, "cancelling sends": 3, "cancels": 5, "cancelled paths": 5}


def variant(F, name):
    a = F.adts.get(SIGNAL)
    for i, v in enumerate(a["variants"] if a else []):
        if v[0] == name:
            return i
    return None


def is_signal(v, var):
    return v is not None and v[0] == "a" and v[1][0] == "adt" and v[1][1] == SIGNAL and v[2] == var


def signal_of(p, res):
    """decided variant of the signal a receive delivered"""
    l = [v for t, v in p.tags.items() if is_fld_of(t, res, 0, 0)]
    return l[0] if len(l) == 1 else None


def check_send(R, F, fams, key, ai, mt):
    tag = brief(F, fams, key, mt)
    cancel = variant(F, "Cancel")
    arg = ("t", ("arg", ai), None)
    R.count("checking sends")
    seen = set()

    def before(p, ses):
        polls = [e for e in ses if e[0] == "recv"]
        if not R.check(len(polls) == 1 and ses and ses[0] is polls[0], tag + ":poll", "%s looks %d times for a cancellation, expected once, before it sends" % (tag, len(polls)), p):
            return None
        e = polls[0]
        R.check(mode_of(e) == "try_recv", tag + ":blocking", "%s waits (%s) instead of polling" % (tag, mode_of(e)), p)
        R.check(arg_slot(F, mt.fam, arg, e) == mt.fam.slot(mt.who(), 1), tag + ":watched", "%s polls session%s, not its session with the broadcaster" % (tag, arg_slot(F, mt.fam, arg, e)), p)
        res = res_of(e)
        seen.add(tag_of(p, res))
        if tag_of(p, res) == 0 and signal_of(p, res) in (cancel, None):
            R.count("cancelled paths")
            R.check(signal_of(p, res) is not None, tag + ":uninspected", "%s does not look at the signal it polled" % tag, p)
            R.check(len(ses) == 1, tag + ":sends", "%s sends although the protocol was cancelled" % tag, p)
            R.check(failed(p), tag + ":success", "%s succeeds although the protocol was cancelled" % tag, p)
            return None
        for x in ses[1:]:
            if x[0] == "send" and tag_of(p, res_of(x)) != 0:
                how = "failed" if tag_of(p, res_of(x)) == 1 else "was not looked at"
                R.check(failed(p), tag + ":lost", "%s succeeds although its send %s" % (tag, how), p)
        return ses[1:]

    M02.judge(R, F, fams, key, "send", ai, mt, before)
    R.check(0 in seen, tag + ":detects", "%s never finds a cancellation" % tag)


def cancelling(R, F, fams, key, f, ai, mt):
    tag = "%s[%s]" % (key, mt.fam.order[mt.who() - 1])
    cancel = variant(F, "Cancel")
    R.count("cancelling sends")
    ps, I = R.paths_of(F, key)
    if ps is None:
        return
    arg = ("t", ("arg", ai), None)
    for p in ps:
        if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
            continue
        ses = session_events(F, p)
        if not R.check(len(ses) == 1 and ses[0][0] == "send", tag + ":once", "%s makes %d session operations, expected one send" % (tag, len(ses)), p):
            continue
        e = ses[0]
        R.check(arg_slot(F, mt.fam, arg, e) == mt.fam.slot(mt.who(), 1), tag + ":slot", "%s tells session%s, not the broadcaster" % (tag, arg_slot(F, mt.fam, arg, e)), p)
        R.check(mode_of(e) == "send", tag + ":gives-up", "%s may give up telling the broadcaster (%s)" % (tag, mode_of(e)), p)
        R.check(is_signal(e[2], cancel), tag + ":signal", "%s sends %s, not Cancel" % (tag, sh(e[2])), p)
        R.check(failed(p), tag + ":success", "%s succeeds" % tag, p)
        k = p.events.index(e)
        dropped = [x for x in p.events[:k] if x[0] == "drop" and same(root(x[1])[0], arg)]
        R.check(not dropped, tag + ":order", "%s drops its sessions before it tells the broadcaster" % tag, p)


def cancels(R, F, fams, key, f):
    tag = label(F, key)
    R.count("cancels")
    ps, I = R.paths_of(F, key)
    if ps is None:
        return
    for p in ps:
        R.check(p.kind == "return", tag + ":ends", "%s does not just end" % tag, p)
        R.check(not session_events(F, p), tag + ":quiet", "%s uses a session" % tag, p)
        d = [x for x in p.ev("drop") if same(x[1], ("t", ("arg", 0), None))]
        R.check(len(d) == 1, tag + ":drops", "%s does not drop its endpoint" % tag, p)


def run(R, B):
    F = B.facts("aff")
    R.check(variant(F, "Cancel") is not None, "anchor:Cancel", "Signal::Cancel is gone")
    fams = families(F, specs_of(B, "aff", R.tier))
    sends, canc = {}, {}
    for key, kind, ai, mt in M02.operations(F, fams):
        f = F.fns[key]
        if mt.fam.adt == LIB_MESH:
            continue
        if f["name"].startswith("send_check"):
            check_send(R, F, fams, key, ai, mt)
            sends.setdefault(mt.fam.adt, []).append((mt.who(), mt.head()[1]))
        elif kind == "recv":
            M02.judge(R, F, fams, key, kind, ai, mt)
    for key, f in sorted(F.fns.items()):
        if "inputs" not in f or "body" not in f or not re.match(r"cancel_\d", f["name"]):
            continue
        ai, mt = mesh_arg(F, fams, f)
        if mt is not None and mt.who() is not None:
            cancelling(R, F, fams, key, f, ai, mt)
            canc.setdefault(mt.fam.adt, []).append(mt.who())
    for adt, fam in fams.items():
        if adt == LIB_MESH:
            continue
        want = sorted((i, j) for i in range(2, fam.n + 1) for j in range(2, fam.n + 1) if i != j)
        R.check(sorted(sends.get(adt, [])) == want, "pairs:" + adt, "%s: cancellation-aware sends exist for %s" % (adt, sorted(sends.get(adt, []))))
        R.check(sorted(canc.get(adt, [])) == list(range(2, fam.n + 1)), "cancellers:" + adt, "%s: cancelling sends exist for %s" % (adt, sorted(canc.get(adt, []))))
    F = B.facts("mesh")
    for key, f in sorted(F.fns.items()):
        if "inputs" in f and "body" in f and f["name"] == "cancel" and f["crate"] in F.crates and len(f["inputs"]) == 1 and f["inputs"][0] and f["inputs"][0][0] != "ref" and "transport" not in key:
            cancels(R, F, fams, key, f)
