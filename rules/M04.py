"""M04: an offer runs exactly the branch that was received, on the received endpoint."""
from mesh import *

NEEDS = ["mesh", "aff", "bin"]
RULE = (
    "every offer of every participant: each path makes exactly one receive, on the slot of the participant at the head of the stack; every path with a delivered branch invokes exactly one continuation, "
    "the one of the delivered variant, on exactly the delivered endpoint, and returns its result; a path without delivery invokes none; an affine offer also passes the received session on to the broadcaster before it runs the branch"
)
EXPLAIN = "Enumeration of all offer operations (binary, three-party, generated, user-facing macros); correlation of the decided variant of the received value with the invoked closure and its argument, on every path."
FLOORS = {"offers": 200, "branches": 450, "affine offers": 6, "binary offers": 5, "joint offers": 10}
BINARY = ("mpstthree::binary::offer::offer_either", "mpstthree::binary_atmp::offer::offer_either", "w_bin::offer_labels", "w_bin::offer_two", "w_bin::offer_timed_labels")


def offers(F, fams):
    out = []
    for key, f in sorted(F.fns.items()):
        if "inputs" not in f or "body" not in f or not f["name"].startswith("offer") or f.get("trait"):
            continue
        ai, mt = mesh_arg(F, fams, f)
        if mt is not None and mt.who() is not None:
            out.append((key, f, ai, mt))
    return out


def closure_args(F, f):
    """indices of the arguments of generic (closure) type, in order"""
    return [i for i, t in enumerate(f["inputs"]) if t and t[0] == "param"]


def judge(R, F, tag, key, f, expect_slot=None, arm_of=None, payload_arg=None):
    ps, I = R.paths_of(F, key, mods=TIMED)
    R.count("offers")
    if ps is None:
        return
    cl = closure_args(F, f)
    done = set()
    for p in ps:
        if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
            continue
        ses = session_events(F, p)
        if not R.check(len(ses) == 1 and ses[0][0] == "recv", tag + ":once", "%s makes %d session operations on a path, expected one receive" % (tag, len(ses)), p):
            continue
        e = ses[0]
        if expect_slot is not None:
            R.check(expect_slot(e), tag + ":slot", "%s waits on %s, not on the session of the participant that chooses" % (tag, sh(e[1])), p)
        inv = p.ev("invoke")
        res = res_of(e)
        rt = tag_of(p, res)
        if rt != 0:
            R.check(not inv, tag + ":spurious", "%s runs a branch although nothing was received" % tag, p)
            R.check(failed(p), tag + ":silent", "%s succeeds although nothing was received" % tag, p)
            continue
        choice = None
        for t, v in p.tags.items():
            if ok_field(t, res, 0):
                choice = (t, v)
        if not inv:
            # a refusal after delivery is only possible for an undeclared variant
            R.check(False, tag + ":ignored", "%s runs no branch although one was received (variant %s)" % (tag, choice[1] if choice else "not inspected"), p)
            continue
        if not R.check(len(inv) == 1, tag + ":several", "%s runs %d continuations" % (tag, len(inv)), p):
            continue
        if not R.check(choice is not None, tag + ":uninspected", "%s runs a continuation without looking at the branch" % tag, p):
            continue
        fn, args, tok, site = inv[0][1:5]
        which = fn[1][1] if istok(fn, "arg") else None
        want = arm_of(choice[1]) if arm_of else (cl[choice[1]] if choice[1] < len(cl) else None)
        R.check(which == want, tag + ":arm:%s" % choice[1], "%s runs continuation %s for variant %s, expected argument %s" % (tag, sh(fn), choice[1], want), p)
        ends = [x for x in args if is_fld_of(x, choice[0], choice[1], 0)]
        R.check(len(ends) == 1, tag + ":endpoint", "%s runs the continuation on %s, not on the endpoint that arrived" % (tag, [sh(x) for x in args]), p)
        v = p.value
        direct = v == tok or (v is not None and tok_inside(v, tok))
        R.check(direct, tag + ":result", "%s returns %s, not the result of the continuation" % (tag, sh(v)), p)
        done.add(choice[1])
        R.count("branches")
    return done


def both(R, F, fams):
    """several participants of one thread that take the same branch of a choice"""
    for key, f in sorted(F.fns.items()):
        m = re.match(r"both_(\d+)_(\d+)_from_(\d+)_v(\d)$", f["name"])
        if not m or "body" not in f:
            continue
        i, j, s, v = (int(x) for x in m.groups())
        tag = "%s::%s" % (key.split("::")[1], f["name"])
        meshes = [mesh_ty(F, fams, t) for t in f["inputs"][:2]]
        if not R.check(all(meshes), tag + ":anchor", "%s takes no two endpoints" % tag):
            continue
        fam = meshes[0].fam
        R.count("joint offers")
        ps, I = R.paths_of(F, key)
        nok = 0
        for p in ps or []:
            if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
                continue
            ses = session_events(F, p)
            here = []
            for e in ses:
                at = [n for n, me in ((0, i), (1, j)) if arg_slot(F, fam, ("t", ("arg", n), None), e) == fam.slot(me, s)]
                R.check(e[0] == "recv" and len(at) == 1 and at[0] not in here, tag + ":slot", "%s: %s on %s, not one receive per endpoint from the participant that chooses" % (tag, e[0], sh(e[1])), p)
                here += at
            got = {n: [(t, w) for t, w in p.tags.items() if ok_field(t, res_of(e), 0)] for n, e in zip(here, ses)}
            lost = any(tag_of(p, res_of(e)) == 1 for e in ses)
            other = any(w != v for l in got.values() for _, w in l)
            if failed(p):
                R.check(lost or other, tag + ":refuses", "%s fails although the expected branches arrived" % tag, p)
                continue
            R.check(not lost and not other and here == [0, 1], tag + ":succeeds", "%s succeeds although a branch is missing or another one" % tag, p)
            x = p.value[3][0] if is_ok(p.value) else None
            ok = x is not None and x[0] == "a" and len(x[3]) == 2 and all(len(got.get(n, ())) == 1 and is_fld_of(x[3][n], got[n][0][0], v, 0) for n in (0, 1))
            R.check(ok, tag + ":endpoint", "%s returns %s, not the endpoints that arrived" % (tag, sh(p.value)), p)
            nok += 1
        R.check(nok > 0, tag + ":never", "%s never succeeds" % tag)


def tok_inside(v, tok):
    """v is tok, possibly re-wrapped (`?` then Ok)"""
    if v == tok:
        return True
    if is_ok(v):
        return is_fld_of(v[3][0], tok, 0, 0)
    if is_err(v):
        x = v[3][0]
        return is_fld_of(x, tok, 1, 0)
    return False


def run(R, B):
    import affine

    F = B.facts("mesh")
    fams = families(F, specs_of(B, "mesh", R.tier))
    seen = {}
    for key, f, ai, mt in offers(F, fams):
        fam, me, head = mt.fam, mt.who(), mt.head()
        tag = brief(F, fams, key, mt)
        if not R.check(head is not None and len(head) == 2, tag + ":stack", "cannot tell from whom %s receives" % tag):
            continue
        slot = fam.slot(me, head[1])
        arg = ("t", ("arg", ai), None)
        done = judge(R, F, tag, key, f, expect_slot=lambda e: arg_slot(F, fam, arg, e) == slot)
        if done is not None:
            n = len(closure_args(F, f))
            R.check(done == set(range(n)), tag + ":coverage", "%s can run the continuations of variants %s of %d" % (tag, sorted(done), n))
        if own_op(mt.fam, f):
            seen.setdefault(mt.fam.adt, []).append((me, head[1]))
        R.sample(tag)
    for adt, fam in fams.items():
        want = sorted((i, j) for i in range(1, fam.n + 1) for j in fam.others(i) for _ in range(2 if fam.mod.startswith("mu_") else 1))
        R.check(sorted(seen.get(adt, [])) == want, "offers:" + adt, "%s: offers exist for %s, expected each ordered pair once" % (adt, sorted(seen.get(adt, []))))
    both(R, F, fams)
    affine.dispatch(R, B)
    F = B.facts("bin")
    for key in BINARY:
        f = F.fns.get(key)
        tag = short(key)
        if not R.check(f is not None and "body" in f, "anchor:" + tag, "%s is gone" % key):
            continue
        done = judge(R, F, tag, key, f)
        R.count("binary offers")
        if done is not None:
            n = len(closure_args(F, f))
            R.check(done == set(range(n)), tag + ":coverage", "%s can run the continuations of variants %s of %d" % (tag, sorted(done), n))
