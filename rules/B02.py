"""B02: a binary send, receive or choice moves exactly one payload."""
from mesh import *

NEEDS = ["bin"]
RULE = (
    "send/send_canceled: every path makes exactly one send, on arg.channel, of (payload argument, one side of a fresh session) and returns the other side of that same session; "
    "recv: exactly one receive on arg.channel, success returns the two components of what it delivered; "
    "choose_left/right/choose!: exactly one send, on arg.channel, of the asked label around one side of a fresh session, whose other side is returned; "
    "offer_either/offer!: exactly one receive on arg.channel; the timed send, receive, choose and offer are held to the same, except that a path that refuses may leave the channel alone"
)
EXPLAIN = "Trace-partitioned provenance analysis over all paths of the binary primitives (polymorphic MIR) and of the expansions of choose!/offer! in the witness crate bin."
FLOORS = {"send-like": 4, "recv-like": 2, "choose-like": 8, "offer-like": 5, "timed successes": 20}
BIN = "mpstthree::binary::"
ATMP = "mpstthree::binary_atmp::"


def fresh_pair(v, w):
    """v and w are the two sides of one fresh session"""
    return istok(v, "new") and istok(w, "new") and v[1][:3] == w[1][:3] and v[1][1] == "session" and v[1][3] != w[1][3]


def value_of(p):
    v = p.value
    return v[3][0] if is_ok(v) else v


def chan_of(F, ev, arg):
    h = chan_holder(ev[1])
    return h is not None and h == arg


def refuses(p, ses):
    """a timed operation that does not touch the channel and does not succeed"""
    return not ses and failed(p)


def judge_send(R, F, key, ia, isess, timed=False):
    ps, I = R.paths_of(F, key)
    tag = short(key)
    R.count("send-like")
    if ps is None:
        return
    okpaths = 0
    for p in ps:
        if p.kind == "cut":
            R.check(False, tag + ":loop", "%s may loop" % tag, p)
            continue
        ses = session_events(F, p)
        if timed and refuses(p, ses):
            continue
        if not R.check(len(ses) == 1 and ses[0][0] == "send" and ses[0][3] in ("send", "send_timeout", "send_deadline"), tag + ":once",
                       "%s makes %d channel operations on a path, expected exactly one send" % (tag, len(ses)), p):
            continue
        e = ses[0]
        h = chan_holder(e[1])
        R.check(istok(h, "arg") and h[1][1] == isess, tag + ":channel", "%s sends on %s, not on its own session" % (tag, sh(e[1])), p)
        pay = e[2]
        good = pay is not None and pay[0] == "a" and len(pay[3]) == 2 and istok(pay[3][0], "arg") and pay[3][0][1][1] == ia
        R.check(good, tag + ":payload", "%s transmits %s instead of the given payload" % (tag, sh(pay)), p)
        if not good:
            continue
        if failed(p):
            continue
        okpaths += 1
        if timed:
            R.count("timed successes")
        R.check(p.kind == "return" and fresh_pair(pay[3][1], value_of(p)), tag + ":continuation",
                "%s sends %s and returns %s: not the two ends of one fresh continuation" % (tag, sh(pay[3][1]), sh(p.value)), p)
        R.sample("%s: send %s; return %s" % (tag, sh(pay), sh(p.value)))
    R.check(okpaths > 0, tag + ":succeeds", "%s never succeeds" % tag)


def judge_recv(R, F, key, isess=0, timed=False):
    ps, I = R.paths_of(F, key)
    tag = short(key)
    R.count("recv-like")
    if ps is None:
        return
    n = 0
    for p in ps:
        ses = session_events(F, p)
        if timed and (p.kind == "cut" or refuses(p, ses)):
            R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p)
            continue
        if not R.check(len(ses) == 1 and ses[0][0] == "recv", tag + ":once", "%s makes %d channel operations on a path, expected one receive" % (tag, len(ses)), p):
            continue
        e = ses[0]
        h = chan_holder(e[1])
        R.check(istok(h, "arg") and h[1][1] == isess and (timed or e[2] in ("recv",)), tag + ":channel", "%s receives (%s) on %s, not on its own session" % (tag, e[2], sh(e[1])), p)
        if failed(p):
            R.check(timed or tag_of(p, res_of(e)) == 1, tag + ":spurious", "%s fails although something arrived" % tag, p)
            continue
        n += 1
        if timed:
            R.count("timed successes")
        v = value_of(p)
        if v is not None and v[0] == "a" and len(v[3]) == 2:
            good = ok_field(v[3][0], res_of(e), 0) and ok_field(v[3][1], res_of(e), 1)
        else:
            good = is_fld_of(v, res_of(e), 0, 0) or v == res_of(e)
        R.check(good, tag + ":delivers", "%s returns %s, not exactly what arrived" % (tag, sh(v)), p)
        R.sample("%s: return %s" % (tag, sh(v)))
    R.check(n > 0, tag + ":succeeds", "%s never succeeds" % tag)


def judge_choose(R, F, key, isess, label, timed=False):
    """label: (adt key, variant)"""
    ps, I = R.paths_of(F, key, mods=TIMED if timed else None)
    tag = short(key)
    R.count("choose-like")
    if ps is None:
        return
    for p in ps:
        ses = session_events(F, p)
        if not R.check((p.kind == "return" or timed) and len(ses) == 1 and ses[0][0] == "send", tag + ":once", "%s makes %d channel operations, expected one send" % (tag, len(ses)), p):
            continue
        e = ses[0]
        h = chan_holder(e[1])
        R.check(istok(h, "arg") and h[1][1] == isess, tag + ":channel", "%s sends on %s" % (tag, sh(e[1])), p)
        pay = e[2]
        lab = pay[3][0] if pay is not None and pay[0] == "a" and pay[3] else None
        good = lab is not None and lab[0] == "a" and lab[1][0] == "adt" and lab[1][1] == label[0] and lab[2] == label[1] and len(lab[3]) == 1
        R.check(good, tag + ":label", "%s transmits %s instead of the asked branch" % (tag, sh(lab)), p)
        if timed and tag_of(p, res_of(e)) == 1:
            R.check(failed(p), tag + ":goes-on", "%s goes on although the branch could not be sent" % tag, p)
        elif good:
            R.check(fresh_pair(lab[3][0], value_of(p)), tag + ":continuation", "%s sends %s and goes on with %s: not the two ends of one fresh continuation" % (tag, sh(lab), sh(p.value)), p)
            R.sample("%s: send %s; continue on %s" % (tag, sh(lab), sh(p.value)))


def judge_offer(R, F, key, isess, timed=False):
    ps, I = R.paths_of(F, key, mods=TIMED if timed else None)
    tag = short(key)
    R.count("offer-like")
    if ps is None:
        return
    for p in ps:
        ses = session_events(F, p)
        if R.check(len(ses) == 1 and ses[0][0] == "recv" and ses[0][2] == ("timed" if timed else "recv"), tag + ":once", "%s makes %d channel operations, expected one receive" % (tag, len(ses)), p):
            h = chan_holder(ses[0][1])
            R.check(istok(h, "arg") and h[1][1] == isess, tag + ":channel", "%s receives on %s" % (tag, sh(ses[0][1])), p)


def anchor(R, F, key):
    return R.check(key in F.fns and "body" in F.fns[key], "anchor:" + short(key), "public function %s is gone" % key)


def run(R, B):
    F = B.facts("bin")
    for k in (BIN + "send::send", BIN + "send::send_canceled"):
        if anchor(R, F, k):
            judge_send(R, F, k, 0, 1)
    if anchor(R, F, BIN + "recv::recv"):
        judge_recv(R, F, BIN + "recv::recv")
    for k, v in ((BIN + "choose::choose_left", 0), (BIN + "choose::choose_right", 1)):
        if anchor(R, F, k):
            judge_choose(R, F, k, 0, ("either::Either", v))
    for i in range(4):
        k = "w_bin::choose_%d" % i
        if anchor(R, F, k):
            judge_choose(R, F, k, 0, ("w_bin::Label", i))
    for k in (BIN + "offer::offer_either", "w_bin::offer_labels", "w_bin::offer_two"):
        if anchor(R, F, k):
            judge_offer(R, F, k, 0)
    for k in (ATMP + "send::send", ATMP + "send::send_without_reset"):
        if anchor(R, F, k):
            judge_send(R, F, k, 0, 2, timed=True)
    if anchor(R, F, ATMP + "recv::recv"):
        judge_recv(R, F, ATMP + "recv::recv", 1, timed=True)
    for k, v in ((ATMP + "choose::choose_left", 0), (ATMP + "choose::choose_right", 1)):
        if anchor(R, F, k):
            judge_choose(R, F, k, 1, ("either::Either", v), timed=True)
    for k in (ATMP + "offer::offer_either", "w_bin::offer_timed_labels"):
        if anchor(R, F, k):
            judge_offer(R, F, k, 1, timed=True)
