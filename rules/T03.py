"""T03: a clock is reset exactly when a declared reset follows a successful operation."""
from timedops import *

NEEDS = ["lib"]
RULE = (
    "for the timed send and receive and every order type: on every path that succeeds and can be taken, exactly the clock named as reset (none, if none is declared) holds a time taken after the channel operation, and no other clock changed; "
    "no path that fails changes a clock, and none succeeds while the reset clock is missing; the send used inside timed choices never changes a clock"
)
EXPLAIN = "Final content of the clock ledger and order of clock readings and channel operation on every path of the primitive timed operations, evaluated on one representative of every order type."
FLOORS = {"operations": 3, "successes with reset": 300, "successes without reset": 150}


def writes(p, E):
    """{clock character: [(value, index of the write or None)]} of the clocks changed on a path; None if unknown"""
    out = {}
    for cell, v in p.st.mem.items():
        if not (isinstance(cell, tuple) and cell and cell[0] == "M"):
            continue
        w, k = cell[1], cell[2]
        if v is not None and v[0] == "t" and v[1][0] == "mapval" and v[1][2] == k:
            continue
        out[E.val(k)] = v
    return out


OTHER_MAP = re.compile(r"(?:HashMap|BTreeMap)::<.*>::(\w+)$|(?:HashMap|BTreeMap)::(\w+)$")
READ_ONLY = {"get", "get_mut", "contains_key", "get_key_value", "len", "is_empty", "insert", "iter", "keys", "fmt"}


def run(R, B):
    F = B.facts("lib")
    for key in OPS:
        r = analyse(R, F, key)
        if r is None:
            continue
        ps, tok, names = r
        tag = short(key)
        deferred = key.endswith("send_without_reset")
        for p in ps:
            R.check(not p.ev("mapremove"), tag + ":removes", "%s removes a clock" % tag, p)
            for e in p.ev("call"):
                m = OTHER_MAP.search(e[1])
                R.check(not m or (m.group(1) or m.group(2)) in READ_ONLY, tag + ":ledger", "%s changes the clocks through %s" % (tag, e[1]), p)
        for g, E, can in by_rep(ps, tok, names):
            s, end, i, j, d, hc, rs, hr = g
            cls = group(g)
            reset = {0: None, 1: CLOCK, 2: OTHER}[rs]
            for p in can:
                E.bind(p)
                try:
                    w = writes(p, E)
                except Unknown as u:
                    R.check(False, "%s:%s:which" % (tag, cls), "%s resets a clock that cannot be told: %s" % (tag, u), p)
                    continue
                if failed(p):
                    R.check(not w, "%s:%s:failed" % (tag, cls), "%s fails and yet resets a clock: %s" % (tag, describe(g)), p)
                    continue
                if p.kind != "return":
                    continue
                if deferred or reset is None:
                    R.count("successes without reset")
                    R.check(not w, "%s:%s:undeclared" % (tag, cls), "%s resets %s although no reset is %s: %s" % (tag, [chr(x) for x in w], "wanted here" if deferred else "declared", describe(g)), p)
                    continue
                R.count("successes with reset")
                R.check(set(w) == {reset}, "%s:%s:reset" % (tag, cls), "%s resets %s (k: its own clock, r: another), declared: %s; %s" % (tag, [chr(x) for x in w], chr(reset), describe(g)), p)
                has = hc if reset == CLOCK else hr
                R.check(bool(has), "%s:%s:missing" % (tag, cls), "%s succeeds although the clock to reset is missing: %s" % (tag, describe(g)), p)
                ev = p.events
                at = [n for n, e in enumerate(ev) if e[0] in ("send", "recv")]
                for c, v in w.items():
                    when = [n for n, e in enumerate(ev) if e[0] == "now" and e[1] == v]
                    R.check(len(when) == 1 and at and when[0] > at[-1], "%s:%s:present" % (tag, cls), "%s sets the clock to %s, not to the time after its operation" % (tag, sh(v)), p)
        R.sample("%s: %d paths" % (tag, len(ps)))
