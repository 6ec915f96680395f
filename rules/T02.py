"""T02: a timed operation with an upper bound never waits past it."""
from timedops import *

NEEDS = ["lib"]
RULE = (
    "for every primitive timed operation and every order type with an upper bound: every channel operation on a path that can be taken carries a time limit equal to the bound minus the time elapsed on the declared clock, "
    "nothing else on the path waits, and a path on which the operation ran out of time or failed is a failure"
)
EXPLAIN = "Time limit expression of every channel operation on every path of the timed send, send-without-reset and receive, evaluated on one representative of every order type of bounds and elapsed time."
FLOORS = {"operations": 3, "limited waits": 1500, "failed operations": 3}

WAITS = re.compile(r"(?:^|::)(sleep|sleep_until|sleep_ms|park|park_timeout|wait|wait_timeout|join|lock|recv|recv_timeout|recv_deadline|send|send_timeout|send_deadline|select\w*|yield_now|spin_loop)$")


def run(R, B):
    F = B.facts("lib")
    for key in OPS:
        r = analyse(R, F, key)
        if r is None:
            continue
        ps, tok, names = r
        tag = short(key)
        for p in ps:
            R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p)
            for e in p.ev("call"):
                R.check(not WAITS.search(e[1]), tag + ":waits", "%s waits in %s" % (tag, e[1]), p)
            R.check(len(transfer(F, p, tok)) <= 1, tag + ":twice", "%s tries twice" % tag, p)
            for e in transfer(F, p, tok):
                if tag_of(p, res_of(e)) == 1:
                    R.count("failed operations")
                    R.check(failed(p), tag + ":timeout-ignored", "%s goes on although its channel operation failed or ran out of time" % tag, p)
                elif tag_of(p, res_of(e)) is None:
                    R.check(failed(p), tag + ":unchecked", "%s does not look at the outcome of its channel operation" % tag, p)
        for g, E, can in by_rep(ps, tok, names):
            s, end, i, j, d = g[:5]
            if end < 0:
                continue
            cls = group(g)
            for p in can:
                E.bind(p)
                for e in transfer(F, p, tok):
                    R.count("limited waits")
                    mode = mode_of(e)
                    limit = e[4] if e[0] == "send" else e[3]
                    if mode in ("try_send", "try_recv"):
                        continue
                    if not R.check("timeout" in str(mode), "%s:%s:unlimited" % (tag, cls), "%s waits without limit (%s): %s" % (tag, mode, describe(g)), p):
                        continue
                    try:
                        v = E.secs(limit)
                    except Unknown as u:
                        R.check(False, "%s:%s:limit?" % (tag, cls), "%s waits for a time that cannot be told from its window: %s" % (tag, sh(limit)), p)
                        continue
                    want = end - d
                    R.check(v <= max(want, 0), "%s:%s:past" % (tag, cls), "%s may wait %.1f s where %.1f s are left: %s" % (tag, float(v), float(want), describe(g)), p)
                    R.check(want < 0 or v == want, "%s:%s:short" % (tag, cls), "%s waits %.1f s where %.1f s are left: %s" % (tag, float(v), float(want), describe(g)), p)
        R.sample("%s: %d paths" % (tag, len(ps)))
