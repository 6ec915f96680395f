"""T05: the sends of a timed choice share the clocks as they were; the resets come afterwards."""
from mesh import *
from M03 import choices

NEEDS = ["mesh"]
RULE = (
    "every choice of every participant with timed sessions: each successful path sends once per other participant, through the operation that resets nothing, on that participant's own session and with the clocks of the caller; "
    "after a failed send nothing more is sent, the choice fails and no clock has changed; on success exactly the clocks declared as resets by these sessions hold a time read after the last send"
)
EXPLAIN = "Order of sends, clock readings and clock writes, and final content of the clock ledger, on every path of every timed choose operation (generated methods with symbolic clocks and bounds, and the labelled macro with a different clock and reset per peer)."
FLOORS = {"choices": 40, "sends": 80, "successes with reset": 30, "successes without reset": 20, "failed sends": 30}

TSEND = "mpstthree::binary_atmp::struct_trait::send::SendTimed"
NOTHING = ("lit", ord(" "))


def const_of(a):
    """a const argument of a type"""
    if a[0] == "cval":
        return ("lit", int(a[1]))
    return ("cparam",) + tuple(a[1:]) if a[0] == "cparam" else ("other", a)


def reset_index(F):
    return field_names(F, TSEND).index("reset")


def norm(F, v):
    """the constant a character stands for: the reset of a session is the one in its type (T04)"""
    if v is None:
        return None
    if v[0] == "i":
        return ("lit", v[1])
    if v[0] == "t":
        i, ty = v[1], v[2]
        if i[0] == "cparam":
            return ("cparam",) + tuple(i[1:])
        if i[0] == "fld" and i[1] is not None and i[1][0] == "t" and i[1][2] and i[1][2][0] == "adt" and i[1][2][1] == TSEND:
            n = reset_index(F)
            if i[3] == n:
                return const_of(i[1][2][2][n])
    return None


def decided(F, p):
    """{constant: is it the blank?} from the conditions of a path; None if the path contradicts itself"""
    out = {}
    for c, v in p.conds.items():
        if not (isinstance(c, tuple) and c and c[0] == "x" and c[1] in ("Eq", "Ne") and len(c) == 4):
            continue
        a, b = norm(F, c[2]), norm(F, c[3])
        if a is None or b is None:
            continue
        if b == NOTHING:
            a, b = b, a
        if a != NOTHING:
            continue
        blank = bool(v) == (c[1] == "Eq")
        if b[0] == "lit" and blank != (b == NOTHING):
            return None
        if out.setdefault(b, blank) != blank:
            return None
    return out


def judge(R, F, key, f, ai, mt, slots):
    fam, me = mt.fam, mt.who()
    tag = "%s:%s[%s]" % (key.split("::{impl#")[0].replace("::" + f["name"], ""), f["name"], fam.order[me - 1])
    R.count("choices")
    ps, I = R.paths_of(F, key, mods=TIMED)
    if ps is None:
        return
    tok = ("t", ("arg", ai), None)
    n = reset_index(F)
    clocks = [i for i, t in enumerate(f["inputs"]) if t and t[0] == "ref" and "HashMap" in str(t)]
    if not R.check(len(clocks) == 1, tag + ":clocks", "%s takes %d sets of clocks" % (tag, len(clocks))):
        return
    nok = 0
    for p in ps:
        dec = decided(F, p)
        if dec is None:
            continue
        ops = [(k, e) for k, e in enumerate(p.events) if e[0] == "timedop"]
        raw = [e for e in session_events(F, p) if len(e) < 4 or e[3] != "timed"]
        R.check(not raw, tag + ":untimed", "%s uses a session without its clock: %s" % (tag, [e[0] for e in raw]), p)
        R.check(not p.ev("mapremove") and not p.ev("mapinsert"), tag + ":ledger", "%s adds or removes clocks" % tag, p)
        lost = None
        used = set()
        for k, e in ops:
            R.count("sends")
            s = e[3]
            own = s is not None and s[0] == "t" and s[1][0] == "fld" and same_tok(s[1][1], tok)
            R.check(own, tag + ":session", "%s sends on %s, no session of its own" % (tag, sh(s)), p)
            R.check(lost is None, tag + ":goes-on", "%s goes on sending after a send failed" % tag, p)
            ck = e[2]
            R.check(ck is not None and ck[0] == "t" and ck[1] in (("deref", ("arg", clocks[0])), ("arg", clocks[0])), tag + ":whose-clocks", "%s checks the clocks %s, not those of its caller" % (tag, sh(ck)), p)
            if own:
                used.add(s[1][3])
                c = const_of(s[2][2][n]) if s[2] and s[2][1] == TSEND else None
                if c is not None and not (c == NOTHING or dec.get(c) is True):
                    R.check(e[1] == "send_without_reset", tag + ":resets-between", "%s resets the clock of session%d between its sends (through %s)" % (tag, slots[s[1][3]], e[1]), p)
            if p.st.tags.get(e[4]) == 1:
                lost = e
        w = {}
        for cell, v in p.st.mem.items():
            if not (isinstance(cell, tuple) and cell and cell[0] == "M"):
                continue
            if v is not None and v[0] == "t" and v[1][0] == "mapval" and v[1][2] == cell[2]:
                continue
            k = norm(F, cell[2])
            if R.check(k is not None, tag + ":which", "%s resets a clock that cannot be told: %s" % (tag, sh(cell[2])), p):
                w[k] = v
        if lost is not None:
            R.count("failed sends")
            R.check(failed(p), tag + ":carries-on", "%s succeeds although a send failed" % tag, p)
            R.check(not w, tag + ":resets-anyway", "%s resets clocks although a send failed" % tag, p)
            continue
        if failed(p):
            continue
        nok += 1
        R.check(len(ops) == len(slots) and len(used) == len(slots), tag + ":all", "%s sends on %d of %d sessions" % (tag, len(used), len(slots)), p)
        want = set()
        for a in mt.slots:
            c = const_of(a[2][n])
            if c == NOTHING or dec.get(c) is True:
                continue
            want.add(c)
            if c[0] == "cparam":
                R.check(dec.get(c) is False, tag + ":blind", "%s does not look at whether a reset was declared" % tag, p)
        R.count("successes with reset" if want else "successes without reset")
        R.check(set(w) == want, tag + ":resets", "%s resets %s, declared: %s" % (tag, show(w), show(want)), p)
        last = max([k for k, e in ops], default=-1)
        for c, v in w.items():
            when = [k for k, e in enumerate(p.events) if e[0] == "now" and e[1] == v]
            R.check(len(when) == 1 and when[0] > last, tag + ":present", "%s sets a clock to %s, not to the time after its last send" % (tag, sh(v)), p)
    R.check(nok > 0, tag + ":succeeds", "%s never succeeds" % tag)
    R.sample("%s: %d paths" % (tag, len(ps)))


def same_tok(a, b):
    return a is not None and a[0] == "t" and a[1] == b[1]


def show(cs):
    return sorted(chr(c[1]) if c[0] == "lit" else str(c[1]) for c in cs)


def run(R, B):
    F = B.facts("mesh")
    fams = families(F, specs_of(B, "mesh", R.tier))
    seen = {}
    for key, f, ai, mt in choices(F, fams):
        args = [a for a in mt.slots if a[0] == "adt" and a[1] == TSEND]
        if not args:
            continue
        sf = slot_fields(F, mt.fam)[0]
        slots = {fi: s for s, fi in sf.items()}
        if not R.check(len(args) == len(slots), "mixed:" + key, "%s: only %d of %d sessions are timed" % (key, len(args), len(slots))):
            continue
        judge(R, F, key, f, ai, mt, slots)
        seen.setdefault(mt.fam.adt, []).append((f["name"], mt.who()))
    for adt, fam in fams.items():
        if not fam.mod.startswith(("atmp_", "ilt_")):
            continue
        want = [(n, i) for n in ("choose_left", "choose_right") for i in range(1, fam.n + 1)]
        if fam.mod.startswith("atmp_"):
            want += [("choose_%d_%s" % (i, b), i) for i in range(1, fam.n + 1) for b in ("v0", "v1", "mix")]
        got = seen.get(adt, [])
        R.check(sorted(x for x in want if x not in got) == [], "choosers:" + adt, "%s: no timed choice for %s" % (adt, sorted(x for x in want if x not in got)))
