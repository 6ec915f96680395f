"""M02: a multiparty send/receive touches only the session of the named peer."""
from mesh import *

NEEDS = ["mesh"]
RULE = (
    "every send/recv operation of every participant: on each path at most one session operation, on the slot of the peer at the head of the stack; "
    "a successful path transfers the given payload / returns what arrived, returns an endpoint whose peer slot is the matching continuation, whose other slots and name are those of the argument, and whose stack is a fresh continuation of the argument's"
)
EXPLAIN = "Type-directed enumeration of all multiparty send/receive operations (library and expansions of the generators for several numbers of participants), provenance of every component of the returned endpoint on every path."


def is_payload_of(v, res, idx):
    return ok_field(v, res, idx)


def judge(R, F, fams, key, kind, ai, mt, before=None):
    """before(path, session events) -> the session events the operation itself must make, or None: nothing more to check"""
    f = F.fns[key]
    fam = mt.fam
    tag = brief(F, fams, key, mt)
    me, head = mt.who(), mt.head()
    peer = head[1]
    slot = fam.slot(me, peer)
    R.count(kind + " operations")
    sty = mt.slots[slot - 1]
    R.check(me != peer, tag + ":self", "%s: %s talks to itself" % (tag, fam.order[me - 1]))
    want = SEND_T if kind == "send" else RECV_T
    R.check(sty and sty[0] == "adt" and sty[1] in want, tag + ":slot-type", "%s: the session with the peer at the head of the stack (%s) is not the one the operation is for: %s" % (tag, fam.order[peer - 1], ty_str(mt.t)))
    ps, I = R.paths_of(F, key, mods=TIMED)
    if ps is None:
        return
    argtok = ("t", ("arg", ai), None)
    nok = 0
    for p in ps:
        if not R.check(p.kind != "cut", tag + ":loop", "%s may loop" % tag, p):
            continue
        ses = session_events(F, p)
        if before is not None:
            ses = before(p, ses)
            if ses is None:
                continue
        if not R.check(len(ses) <= 1, tag + ":once", "%s makes %d session operations on one path" % (tag, len(ses)), p):
            continue
        if not ses:
            R.check(failed(p), tag + ":none", "%s returns successfully without any session operation" % tag, p)
            continue
        e = ses[0]
        R.check(e[0] == kind, tag + ":kind", "%s does a %s" % (tag, e[0]), p)
        s = arg_slot(F, fam, argtok, e)
        R.check(s == slot, tag + ":slot", "%s uses session %s of the endpoint, its stack names %s whose session is session%d" % (tag, s, fam.order[peer - 1], slot), p)
        if failed(p):
            continue
        nok += 1
        v = okval(p)
        if kind == "send":
            pay = e[2]
            good = pay is not None and pay[0] == "a" and len(pay[3]) == 2
            R.check(good and istok(pay[3][0], "arg") and pay[3][0][1][1] == 1 - ai, tag + ":payload", "%s transmits %s, not its payload argument" % (tag, sh(pay)), p)
            cont_ok = lambda x: good and fresh_dual(x, pay[3][1])
            mv = v
        else:
            good = v is not None and v[0] == "a" and v[1][0] == "tuple" and len(v[3]) == 2
            if not R.check(good, tag + ":result", "%s returns %s" % (tag, sh(v)), p):
                continue
            R.check(ok_field(v[3][0], res_of(e), 0), tag + ":payload", "%s returns %s, not the payload that arrived" % (tag, sh(v[3][0])), p)
            cont_ok = lambda x: ok_field(x, res_of(e), 1)
            mv = v[3][1]
        pt = parts(F, fam, mv)
        if not R.check(pt is not None, tag + ":endpoint", "%s does not return an endpoint of %s (%s)" % (tag, fam.order[me - 1], sh(mv)), p):
            continue
        arg = parts(F, fam, ("t", ("arg", ai), mt.t))
        for k, x in pt[0].items():
            if k == slot:
                R.check(cont_ok(x), tag + ":continuation", "%s: session with %s goes on as %s, which is not the continuation of the operation" % (tag, fam.order[peer - 1], sh(x)), p)
            else:
                R.check(same(x, arg[0][k]), tag + ":frame", "%s: session%d is %s afterwards, it must be left as it was" % (tag, k, sh(x)), p)
        R.check(same(pt[2], arg[2]), tag + ":name", "%s: the name token is %s afterwards" % (tag, sh(pt[2])), p)
        st = pt[1]
        advanced = istok(st) and not same(st, arg[1]) and (st[1][0] in ("new", "ret", "call") or same(root(st)[0], argtok))
        if istok(st, "new"):
            advanced = st[1][1] == "role" and st[1][3] in (0, 1)
        R.check(advanced, tag + ":stack", "%s: the stack is %s afterwards" % (tag, sh(st)), p)
    R.check(nok > 0, tag + ":succeeds", "%s never succeeds" % tag)
    R.sample("%s: %d paths, uses session%d" % (tag, len(ps), slot))


def operations(F, fams):
    """[(function, 'send'|'recv', argument index, MeshTy)]"""
    out = []
    for key, f in F.fns.items():
        if "inputs" not in f or "body" not in f or f.get("trait"):
            continue
        m = re.match(r"(send|recv)(_|$)", f["name"])
        if not m:
            continue
        ai, mt = mesh_arg(F, fams, f)
        if mt is None or mt.who() is None:
            continue
        h = mt.head()
        if h is None or h[0] not in ("to", "fromall"):
            continue
        out.append((key, m.group(1), ai, mt))
    return out


def expected(R, F, fams, ops):
    """every participant can send to / receive from every other one, exactly one way per generator"""
    seen = {}
    for key, kind, ai, mt in ops:
        f = F.fns[key]
        if not own_op(mt.fam, f):
            continue
        k = "from_all" if f["name"].endswith("from_all") else "send_canc" if f["name"].startswith("send_canc") else kind
        seen.setdefault((mt.fam.adt, k), []).append((mt.who(), mt.head()[1]))
    for adt, fam in fams.items():
        for k in ("send", "recv", "send_canc" if fam.mod.startswith("mu_") else "from_all"):
            got = sorted(seen.get((adt, k), []))
            want = sorted((i, j) for i in range(1, fam.n + 1) for j in fam.others(i))
            R.check(got == want, "pairs:%s:%s" % (adt, k), "%s: '%s' operations exist for pairs %s, expected each ordered pair of participants exactly once" % (adt, k, [x for x in got if got.count(x) > 1 or x not in want] or [x for x in want if x not in got]))


FLOORS = {"send operations": 200, "recv operations": 400}


def run(R, B):
    F = B.facts("mesh")
    fams = families(F, specs_of(B, "mesh", R.tier))
    ops = operations(F, fams)
    expected(R, F, fams, ops)
    for key, kind, ai, mt in ops:
        judge(R, F, fams, key, kind, ai, mt)
