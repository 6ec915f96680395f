"""Choices and offers of the affine layer (participant 1 relays cancellations), shared by M01, M03 and M04.

A choice sends every other participant its branch together with one end of a session for the broadcaster, and sends the
broadcaster itself such an end as Signal::Offer; an offer passes the received end on to the broadcaster in the same way."""
from mesh import *
import M03
from C01 import variant, is_signal


def setting(R, B):
    F = B.facts("aff")
    fams = {k: v for k, v in families(F, specs_of(B, "aff", R.tier)).items() if k != LIB_MESH}
    R.check(bool(fams), "anchor:affine", "no affine mesh was found")
    return F, fams


def name_of(key, f, fam, me):
    return "%s:%s[%s]" % (key.split("::{impl#")[0].replace("::" + f["name"], ""), f["name"], fam.order[me - 1])


def expected(f, fam, me, peer):
    m = re.search(r"_v(\d)$", f["name"])
    if m:
        return int(m.group(1))
    if f["name"].endswith("_mix"):
        q = [j for j in fam.others(me) if j != 1].index(peer)
        return 0 if q % 2 else 2
    return None


def chosen(R, F, fam, p, ai, me, tag):
    """{peer: [(handed end, variant, endpoint)]} and [ends handed to the broadcaster]"""
    tok = ("t", ("arg", ai), None)
    offer = variant(F, "Offer")
    out, told = {}, []
    for e in session_events(F, p):
        if not R.check(e[0] == "send", tag + ":recv", "%s waits for a message" % tag, p):
            continue
        s = arg_slot(F, fam, tok, e)
        if not R.check(s is not None, tag + ":channel", "%s sends on %s, which is no session of its endpoint" % (tag, sh(e[1])), p):
            continue
        j = [x for x in fam.others(me) if fam.slot(me, x) == s][0]
        v = e[2]
        pay = v[3][0] if v is not None and v[0] == "a" and len(v[3]) == 2 else None
        if j == 1:
            sig = pay if pay is not None and pay[0] == "a" and pay[1][0] == "adt" else v
            if R.check(is_signal(sig, offer) and len(sig[3]) == 1, tag + ":broadcaster", "%s sends the broadcaster %s, not a session to go on with" % (tag, sh(v)), p):
                told.append(sig[3][0])
            continue
        lab = pay[3] if pay is not None and pay[0] == "a" and pay[1][0] == "tuple" and len(pay[3]) == 2 else None
        ok = lab is not None and lab[1][0] == "a" and lab[1][1][0] == "adt" and len(lab[1][3]) == 1
        if R.check(ok, tag + ":message", "%s sends %s, not a branch with a session for the broadcaster" % (tag, sh(v)), p):
            out.setdefault(j, []).append((lab[0], lab[1][2], lab[1][3][0]))
            R.count("messages")
    return out, told


def choosers(F, fams):
    return [(k, f, ai, mt) for k, f, ai, mt in M03.choices(F, fams) if mt.fam.adt in fams]


def check_choosers(R, fams, seen):
    for adt, fam in fams.items():
        want = sorted((n % i, i) for i in range(2, fam.n + 1) for n in ("choose_%d_v0", "choose_%d_v1", "choose_%d_mix", "choose_fn%d_v0", "choose_fn%d_v1"))
        R.check(sorted(seen.get(adt, [])) == want, "choosers:" + adt, "%s: choices exist for %s, expected %s" % (adt, sorted(seen.get(adt, [])), want))


def fan_out(R, B):
    """M03"""
    F, fams = setting(R, B)
    seen = {}
    for key, f, ai, mt in choosers(F, fams):
        fam, me = mt.fam, mt.who()
        tag = name_of(key, f, fam, me)
        seen.setdefault(fam.adt, []).append((f["name"], me))
        R.count("affine choices")
        ps, I = R.paths_of(F, key)
        nok = 0
        for p in ps or []:
            if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
                continue
            ms, told = chosen(R, F, fam, p, ai, me, tag)
            R.check(len(told) <= 1, tag + ":twice", "%s tells the broadcaster %d times" % (tag, len(told)), p)
            for j, l in ms.items():
                R.check(len(l) == 1, tag + ":twice", "%s sends %d messages to %s" % (tag, len(l), fam.order[j - 1]), p)
                for end, var, m in l:
                    want = expected(f, fam, me, j)
                    R.check(want is not None and var == want, tag + ":label", "%s tells %s branch %s, asked for %s" % (tag, fam.order[j - 1], var, want), p)
                    mj = mesh_ty(F, fams, m[1]) if m[0] == "a" and len(m[1]) > 2 and m[1][2] else None
                    if mj is not None and mj.who() is not None:
                        R.check(mj.who() == j, tag + ":whose", "%s sends the endpoint of %s to %s" % (tag, fam.order[mj.who() - 1], fam.order[j - 1]), p)
            if failed(p):
                continue
            nok += 1
            missing = [fam.order[j - 1] for j in fam.others(me) if j != 1 and j not in ms] + ([] if told else [fam.order[0] + " (broadcaster)"])
            R.check(not missing, tag + ":missing", "%s succeeds without informing %s" % (tag, missing), p)
            pt = parts(F, fam, okval(p))
            if R.check(pt is not None, tag + ":result", "%s returns %s, not an endpoint" % (tag, sh(p.value)), p):
                for k, v in pt[0].items():
                    R.check(istok(v, "new"), tag + ":fresh", "%s goes on with session%d = %s" % (tag, k, sh(v)), p)
        R.check(nok > 0, tag + ":succeeds", "%s never succeeds" % tag)
    check_choosers(R, fams, seen)


def other_end(v):
    """(session, opposite side) of a fresh session end"""
    if istok(v, "new") and v[1][1] == "session":
        return v[1][2], 1 - v[1][3]
    return None


def this_end(v):
    if istok(v, "new") and v[1][1] == "session":
        return v[1][2], v[1][3]
    return None


def joined(R, B):
    """M01"""
    F, fams = setting(R, B)
    for key, f, ai, mt in choosers(F, fams):
        fam, me = mt.fam, mt.who()
        tag = name_of(key, f, fam, me)
        R.count("affine choices")
        ps, I = R.paths_of(F, key)
        for p in ps or []:
            if failed(p) or p.kind != "return":
                continue
            ms, told = chosen(R, F, fam, p, ai, me, tag)
            got = {}
            handed = list(told)
            for j, l in ms.items():
                pt = parts(F, fam, l[0][2])
                if R.check(pt is not None, tag + ":endpoint", "%s sends %s" % (tag, sh(l[0][2])), p):
                    got[j] = pt[0]
                handed.append(l[0][0])
            pt = parts(F, fam, okval(p))
            if R.check(pt is not None, tag + ":result", "%s returns %s" % (tag, sh(p.value)), p):
                got[me] = pt[0]
            if not R.check(set(got) == set(range(2, fam.n + 1)), tag + ":participants", "%s makes endpoints for participants %s" % (tag, sorted(got)), p):
                continue
            places = {}
            for i in got:
                R.check(set(got[i]) == set(range(1, fam.n)), tag + ":slots", "%s: endpoint of %s has slots %s" % (tag, fam.order[i - 1], sorted(got[i])), p)
                for k, v in got[i].items():
                    places.setdefault(this_end(v) or repr(v), []).append("session%d of %s" % (k, fam.order[i - 1]))
            for h in handed:
                places.setdefault(this_end(h) or repr(h), []).append("the broadcaster")
            for t, l in places.items():
                R.check(len(l) == 1, tag + ":shared", "%s: one session end goes to %s" % (tag, l), p)
            for i in sorted(got):
                for j in sorted(got):
                    if i < j:
                        a, b = got[i].get(fam.slot(i, j)), got[j].get(fam.slot(j, i))
                        R.check(fresh_dual(a, b), tag + ":wiring:%s-%s" % (fam.order[i - 1], fam.order[j - 1]), "%s: the sessions of %s and %s are %s and %s, not the two ends of one fresh session" % (tag, fam.order[i - 1], fam.order[j - 1], sh(a), sh(b)), p)
                        R.count("pairs wired")
                b = got[i].get(1)
                R.check(other_end(b) is not None and other_end(b) in [this_end(h) for h in handed], tag + ":relay:%s" % fam.order[i - 1], "%s: the broadcaster does not get the other end of the session %s of %s" % (tag, sh(b), fam.order[i - 1]), p)
                R.count("relays wired")
            R.check(len(handed) == len(got), tag + ":relays", "%s: the broadcaster gets %d sessions for %d participants" % (tag, len(handed), len(got)), p)


def dispatch(R, B):
    """M04"""
    import M04

    F, fams = setting(R, B)
    offer = variant(F, "Offer")
    seen = {}
    for key, f, ai, mt in M04.offers(F, fams):
        fam, me, head = mt.fam, mt.who(), mt.head()
        tag = name_of(key, f, fam, me)
        if not R.check(head is not None and len(head) == 2, tag + ":stack", "cannot tell from whom %s receives" % tag):
            continue
        R.count("affine offers")
        seen.setdefault(fam.adt, []).append((me, head[1]))
        tok = ("t", ("arg", ai), None)
        cl = M04.closure_args(F, f)
        ps, I = R.paths_of(F, key)
        done = set()
        for p in ps or []:
            if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
                continue
            ses = session_events(F, p)
            if not R.check(len(ses) in (1, 2) and ses[0][0] == "recv", tag + ":once", "%s makes %d session operations on a path" % (tag, len(ses)), p):
                continue
            e = ses[0]
            R.check(arg_slot(F, fam, tok, e) == fam.slot(me, head[1]), tag + ":slot", "%s waits on %s, not on the session of the participant that chooses" % (tag, sh(e[1])), p)
            inv = p.ev("invoke")
            res = res_of(e)
            if tag_of(p, res) != 0:
                R.check(not inv and len(ses) == 1, tag + ":spurious", "%s goes on although nothing was received" % tag, p)
                R.check(failed(p), tag + ":silent", "%s succeeds although nothing was received" % tag, p)
                continue
            got = lambda v, i: istok(v, "fld") and v[1][3] == i and ok_field(v[1][1], res, 0)
            told = False
            for e2 in ses[1:]:
                v = e2[2]
                sig = v if is_signal(v, offer) else (v[3][0] if v is not None and v[0] == "a" and v[3] else None)
                ok = e2[0] == "send" and arg_slot(F, fam, tok, e2) == fam.slot(me, 1) and is_signal(sig, offer) and got(sig[3][0], 0)
                R.check(ok, tag + ":relay", "%s sends %s on %s, not the received session to the broadcaster" % (tag, sh(v), sh(e2[1])), p)
                told = ok
                if tag_of(p, res_of(e2)) == 1:
                    R.check(failed(p) and not inv, tag + ":unrelayed", "%s goes on although the broadcaster could not be told" % tag, p)
            if failed(p) and not inv:
                lost = [e2 for e2 in ses[1:] if tag_of(p, res_of(e2)) == 1]
                R.check(bool(lost), tag + ":ignored", "%s runs no branch although one was received" % tag, p)
                continue
            R.check(told, tag + ":unrelayed", "%s runs a branch without telling the broadcaster" % tag, p)
            choice = [(t, v) for t, v in p.tags.items() if got(t, 1)]
            if not R.check(len(inv) == 1 and len(choice) == 1, tag + ":several", "%s runs %d continuations for %d decided branches" % (tag, len(inv), len(choice)), p):
                continue
            t, v = choice[0]
            fn, args, ret = inv[0][1:4]
            which = fn[1][1] if istok(fn, "arg") else None
            R.check(v < len(cl) and which == cl[v], tag + ":arm:%s" % v, "%s runs continuation %s for variant %s" % (tag, sh(fn), v), p)
            R.check(len([x for x in args if is_fld_of(x, t, v, 0)]) == 1, tag + ":endpoint", "%s runs the continuation on %s, not on the endpoint that arrived" % (tag, [sh(x) for x in args]), p)
            R.check(p.value == ret or M04.tok_inside(p.value, ret), tag + ":value", "%s returns %s, not the result of the continuation" % (tag, sh(p.value)), p)
            done.add(v)
            R.count("branches")
        R.check(done == set(range(len(cl))), tag + ":coverage", "%s can run the continuations of variants %s of %d" % (tag, sorted(done), len(cl)))
    for adt, fam in fams.items():
        want = sorted((i, j) for i in range(2, fam.n + 1) for j in range(2, fam.n + 1) if i != j)
        R.check(sorted(seen.get(adt, [])) == want, "offers:" + adt, "%s: affine offers exist for %s" % (adt, sorted(seen.get(adt, []))))
