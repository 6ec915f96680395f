"""B07: selecting returns what one ready session sent, and removes only it."""
from core import *

NEEDS = ["lib"]
RULE = (
    "select_mut/select: every session of the list, in list order and exactly once, is registered before waiting; the receive is made on the element at the index the wait reported; "
    "a path that returns a payload returns exactly what this receive delivered; every path after a completed receive removes exactly one element, at that same index, and (owned form) returns the list without it; "
    "a path that fails with an empty list makes no channel operation; only a poll that found nothing is repeated"
)
EXPLAIN = "All paths of select_mut and select (polymorphic MIR), with the index, channel and element provenance of each step; loop bodies analysed to a fixpoint of the abstract state."
FLOORS = {"select functions": 2, "delivering paths": 2, "refusing paths": 4}
SEL = "mpstthree::binary::select::"


def index_of(w):
    """the index value a wait event yields"""
    kind, t = w[1], w[2]
    return t if kind == "ready" else ("x", "selindex", t)


def is_list(v, base):
    return istok(v) and v == base


def judge(R, F, key, owned):
    tag = short(key)
    R.count("select functions")
    ps, I = R.paths_of(F, key)
    if ps is None:
        return
    for p in ps:
        base = ("t", ("arg", 0), None) if owned else ("t", ("deref", ("arg", 0)), None)
        ses = session_events(F, p)
        regs = p.ev("selreg")
        nxt = [e for e in p.ev("next")]
        waits = p.ev("selwait")
        rem = p.ev("vecremove")
        other = p.ev("vecmut", "push")
        R.check(not other, tag + ":list", "%s changes the list by %s" % (tag, [e[1] for e in other]), p)
        # registration: one pass over the whole list, every element, before the wait
        if waits:
            first = p.events.index(waits[0])
            R.check(all(p.events.index(e) < first for e in regs), tag + ":late", "%s registers a session after it started to wait" % tag, p)
            its = [e for e in nxt if p.events.index(e) < first]
            for e in its:
                it = e[1]
                plain = istok(it, "iter") and it[1][2] == "iter" and strip(it[1][1]) == strip(base)
                by_index = it is not None and it[0] == "a" and it[1][1].endswith("ops::range::Range") and (it[3][0] == ("i", 0) or istok(it[3][0], "rnext")) and strip(it[3][1]) == ("x", "len", strip(base))
                plain = plain or by_index
                R.check(plain, tag + ":iteration", "%s registers the sessions of %s, not of its whole list in order" % (tag, sh(it)), p)
                if p.tags.get(e[2]) == 1:
                    item = ("t", ("fld", e[2], 1, 0), None)
                    at = ("t", ("index", strip(base), strip(item)))
                    n = [r for r in regs if chan_root(r[2]) in (strip(item), at)]
                    R.check(len(n) == 1, tag + ":register", "%s registers an element of its list %d times" % (tag, len(n)), p)
            R.check(bool(its) and p.tags.get(its[-1][2]) == 0, tag + ":registration", "%s starts to wait before it has gone through its list" % tag, p)
        for r in regs:
            R.check(r[1] == "recv", tag + ":direction", "%s registers a %s" % (tag, r[1]), p)
        for e in ses:
            i = p.events.index(e)
            w = [x for x in waits if p.events.index(x) < i]
            if not R.check(e[0] == "recv" and bool(w), tag + ":kind", "%s makes a %s without waiting" % (tag, e[0]), p):
                continue
            idx = index_of(w[-1])
            h = chan_holder(e[1])
            good = istok(h, "index", "idx") and h[1][2] == idx and strip(h[1][1]) == strip(base)
            R.check(good, tag + ":element", "%s receives from %s, not from the session that is ready" % (tag, sh(e[1])), p)
            R.check(mode_of(e) in ("try_recv", "recv", "selected"), tag + ":mode", "%s receives by %s" % (tag, mode_of(e)), p)
        if p.kind == "cut":
            # repeated only after a poll that found nothing
            for e in ses:
                empt = [v for t, v in p.conds.items() if t[0] == "x" and t[1] == "is_empty_err" and inside(t, res_of(e))]
                tags = [v for t, v in p.tags.items() if is_fld_of(t, res_of(e), 1, 0)]
                R.check(tag_of(p, res_of(e)) == 1 and (empt == [1] or tags == [0]), tag + ":repeat", "%s starts over after a receive that did not find its channel empty" % tag, p)
            continue
        if not R.check(p.kind == "return", tag + ":kind", "%s can %s" % (tag, p.kind), p):
            continue
        v, rest = p.value, None
        if owned:
            if not R.check(v is not None and v[0] == "a" and len(v[3]) == 2, tag + ":pair", "%s returns %s" % (tag, sh(v)), p):
                continue
            v, rest = v[3]
        want = (("i", 0), ("x", "len", strip(base)))
        empty = [x for t, x in p.conds.items() if t[0] == "x" and t[1] == "Eq" and strip(t)[2:] in (want, want[::-1])]
        if not ses:
            R.check(is_err(v) and empty == [1], tag + ":empty", "%s returns %s without receiving" % (tag, sh(v)), p)
            R.check(not rem, tag + ":removed", "%s removes an element without receiving" % tag, p)
            if owned:
                R.check(strip(rest) == strip(base), tag + ":rest", "%s returns the list %s" % (tag, sh(rest)), p)
            R.count("refusing paths")
            continue
        R.check(empty == [0] or not empty, tag + ":empty-wait", "%s waits on an empty list" % tag, p)
        e = ses[-1]
        idx = index_of([x for x in waits if p.events.index(x) < p.events.index(e)][-1]) if waits else None
        ok_removal = len(rem) == 1 and rem[0][2] == idx and strip(rem[0][1]) == strip(base) and p.events.index(rem[0]) > p.events.index(e)
        rt = tag_of(p, res_of(e))
        for x in ses[:-1]:
            R.check(tag_of(p, res_of(x)) == 1, tag + ":lost", "%s receives again after a receive that may have delivered" % tag, p)
        if rt == 0:
            R.count("delivering paths")
            good = is_ok(v) and (is_fld_of(v[3][0], res_of(e), 0, 0) or (v[3][0] is not None and v[3][0][0] == "a" and len(v[3][0][3]) == 2 and all(ok_field(x, res_of(e), i) for i, x in enumerate(v[3][0][3]))))
            good = good or v == res_of(e)
            R.check(good, tag + ":payload", "%s returns %s, not what the ready session sent" % (tag, sh(v)), p)
            R.check(ok_removal, tag + ":removal", "%s delivers from index %s and removes %s" % (tag, sh(idx), [sh(x[2]) for x in rem]), p)
        else:
            R.count("refusing paths")
            R.check(is_err(v) or v == res_of(e), tag + ":gone", "%s returns %s although its receive %s" % (tag, sh(v), "failed" if rt == 1 else "was not looked at"), p)
            R.check(not rem or ok_removal, tag + ":removal-gone", "%s removes %s after a failed receive at %s" % (tag, [sh(x[2]) for x in rem], sh(idx)), p)
        if owned:
            want = rem[0] if rem else None
            good = istok(rest, "vecless") and want is not None and rest[1][2] == want[2] and strip(rest[1][1]) == strip(base)
            R.check(good or (not rem and strip(rest) == strip(base)), tag + ":rest", "%s returns the list %s, not the others" % (tag, sh(rest)), p)
        R.sample("%s: %s" % (tag, sh(p.value)))


def strip(v):
    """identity of a token without its printed types"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "t":
            return ("t", strip(v[1]))
        return tuple(strip(x) for x in v)
    return v


def inside(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(inside(y, x) for y in t)


def chan_root(c):
    """element a registered channel belongs to"""
    h = chan_holder(c)
    v = strip(h) if h is not None else None
    # reached through a reference to the element
    if v is not None and v[1][0] == "deref":
        return ("t", v[1][1])
    return v


def run(R, B):
    F = B.facts("lib")
    for n, owned in (("select_mut", False), ("select", True)):
        k = SEL + n
        if R.check(k in F.fns and "body" in F.fns[k], "anchor:" + n, "public function %s is gone" % k):
            judge(R, F, k, owned)
