"""M03: a multiparty choice informs every other participant, once, of the same branch."""
from mesh import *

NEEDS = ["mesh", "aff"]
RULE = (
    "every choice of every participant: each successful path makes exactly one send per other participant, on the slot of the argument endpoint reserved for it, "
    "each carrying the asked branch (the label given for that participant) around that participant's new endpoint, and returns a new endpoint of the chooser; no path sends twice to one participant or sends another branch; affine choices do so with every participant but the broadcaster, who gets the new session of the chooser, once"
)
EXPLAIN = "Enumeration of all choose operations (library functions and methods, expansions of the generators and of the user-facing choice macros) with label and destination provenance of every message on every path."
FLOORS = {"choices": 180, "messages": 400, "affine choices": 20}


def expected_label(f, fam, me, peer):
    """the branch this function asks for, for `peer`: variant index"""
    n = f["name"]
    m = re.search(r"(?:^|_)(left|right)(?:_|$)", n)
    if m:
        return 0 if m.group(1) == "left" else 1
    m = re.search(r"_v(\d)$", n)
    if m:
        return int(m.group(1))
    if n.endswith("_mix"):
        q = fam.others(me).index(peer)
        return 0 if q % 2 else 2
    return None


def choices(F, fams):
    out = []
    for key, f in sorted(F.fns.items()):
        if "inputs" not in f or "body" not in f or not f["name"].startswith("choose"):
            continue
        if f.get("trait"):
            continue
        ai, mt = mesh_arg(F, fams, f)
        if mt is None or mt.who() is None:
            continue
        out.append((key, f, ai, mt))
    return out


def messages(R, F, fam, p, ai, me, tag):
    """{slot: [(event, label variant, mesh value)]} of the sends of a path"""
    out = {}
    tok = ("t", ("arg", ai), None)
    for e in session_events(F, p):
        if not R.check(e[0] == "send", tag + ":recv", "%s waits for a message" % tag, p):
            continue
        s = arg_slot(F, fam, tok, e)
        if not R.check(s is not None, tag + ":channel", "%s sends on %s, which is no session of its endpoint" % (tag, sh(e[1])), p):
            continue
        pay = e[2]
        lab = pay[3][0] if pay is not None and pay[0] == "a" and len(pay[3]) == 2 else None
        if not R.check(lab is not None and lab[0] == "a" and lab[1][0] == "adt" and len(lab[3]) == 1, tag + ":message", "%s sends %s, not a branch" % (tag, sh(pay)), p):
            continue
        out.setdefault(s, []).append((e, lab[2], lab[3][0]))
        R.count("messages")
    return out


def judge(R, F, fams, key, f, ai, mt):
    fam, me = mt.fam, mt.who()
    tag = "%s:%s[%s]" % (key.split("::{impl#")[0].replace("::" + f["name"], ""), f["name"], fam.order[me - 1])
    R.count("choices")
    ps, I = R.paths_of(F, key, mods=TIMED)
    if ps is None:
        return
    nok = 0
    for p in ps:
        if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
            continue
        ms = messages(R, F, fam, p, ai, me, tag)
        for s, l in ms.items():
            R.check(len(l) == 1, tag + ":twice", "%s sends %d messages on session%d" % (tag, len(l), s), p)
        for j in fam.others(me):
            for e, var, m in ms.get(fam.slot(me, j), []):
                want = expected_label(f, fam, me, j)
                if not R.check(want is not None, tag + ":branch?", "cannot tell which branch %s asks for" % tag):
                    continue
                R.check(var == want, tag + ":label", "%s tells %s branch %s, asked for %s" % (tag, fam.order[j - 1], var, want), p)
                pt = parts(F, fam, m)
                R.check(pt is not None, tag + ":endpoint", "%s sends %s to %s, not an endpoint" % (tag, sh(m), fam.order[j - 1]), p)
                mj = mesh_ty(F, fams, m[1]) if m[0] == "a" and len(m[1]) > 2 and m[1][2] else None
                if mj is not None and mj.who() is not None:
                    R.check(mj.who() == j, tag + ":whose", "%s sends the endpoint of %s to %s" % (tag, fam.order[mj.who() - 1], fam.order[j - 1]), p)
        if failed(p):
            continue
        nok += 1
        missing = [fam.order[j - 1] for j in fam.others(me) if fam.slot(me, j) not in ms]
        R.check(not missing, tag + ":missing", "%s succeeds without informing %s" % (tag, missing), p)
        pt = parts(F, fam, okval(p))
        if R.check(pt is not None, tag + ":result", "%s returns %s, not an endpoint" % (tag, sh(p.value)), p):
            for k, v in pt[0].items():
                R.check(istok(v, "new"), tag + ":fresh", "%s goes on with session%d = %s" % (tag, k, sh(v)), p)
    R.check(nok > 0, tag + ":succeeds", "%s never succeeds" % tag)
    R.sample("%s: %d paths" % (tag, len(ps)))


def run(R, B):
    import affine

    F = B.facts("mesh")
    fams = families(F, specs_of(B, "mesh", R.tier))
    seen = {}
    for key, f, ai, mt in choices(F, fams):
        judge(R, F, fams, key, f, ai, mt)
        if own_op(mt.fam, f):
            seen.setdefault(mt.fam.adt, []).append((f["name"], mt.who()))
    for adt, fam in fams.items():
        want = sorted((n, i) for n in ("choose_left", "choose_right") for i in range(1, fam.n + 1))
        if fam.mod.startswith("mu_"):
            want = [("choose_%s_last" % n, fam.n) for n in ("left", "right")]
            want += [("choose_%s%d_%s" % (a, i, b), i) for i in range(1, fam.n + 1) for a, b in (("", "mix"), ("", "v0"), ("", "v1"), ("fn", "v0"), ("fn", "v1"))]
            want.sort()
        R.check(sorted(seen.get(adt, [])) == want, "choosers:" + adt, "%s: choices exist for %s, expected %s" % (adt, sorted(seen.get(adt, [])), want))
    affine.fan_out(R, B)
