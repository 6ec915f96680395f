"""B01: session creation wires the two endpoints crosswise."""
from core import *

NEEDS = ["mesh"]
RULE = (
    "the dual of a session type keeps its payload and dualises its continuations in their places, and dual of dual is the type itself; "
    "for every impl of Session: on every path of new() the two returned endpoints contain, for each created channel, its "
    "sending half exactly once in one endpoint and its receiving half exactly once in the other, every channel is "
    "bounded(1), every other component is one side of a fresh pair whose other side sits in the same field of the other endpoint"
)
EXPLAIN = (
    "Provenance analysis of the MIR of every Session::new (all inputs: it has none; all generic instantiations: the "
    "analysis is polymorphic). Structural part decided: who holds which half of which fresh channel, and channel capacity."
)
FLOORS = {"session impls": 22}

ENDPOINTS = SESSION_ADTS


def components(F, v, path=()):
    """leaf components of an endpoint aggregate: [(field names, token)]"""
    out = []
    if v is not None and v[0] == "a":
        kind = v[1]
        names = field_names(F, kind[1], v[2]) if kind[0] == "adt" else [str(i) for i in range(len(v[3]))]
        for n, x in zip(names, v[3]):
            out += components(F, x, path + (n,))
    elif v is not None:
        out.append((path, v))
    return out


def judge_new(R, F, key, im):
    self_name = adt_name(im["self"])
    tag = "new:%s" % self_name
    selfkey = key

    def follow(c):
        # the analysed function, and duals delegating to each other, are followed;
        # creation of a component of generic type is a fresh pair
        t = c.targs[0] if c.targs else None
        return t is not None and t[0] == "adt" and t[1] in ENDPOINTS and (c.f[5] is not None or True) and t[1] in ENDPOINTS

    ps, I = R.paths_of(F, key, follow=follow)
    if ps is None:
        return
    R.check(any(p.kind == "return" for p in ps), tag + ":returns", "%s::new never returns" % self_name)
    for p in ps:
        if not R.check(p.kind == "return", tag + ":fails", "%s::new can %s" % (self_name, p.kind), p):
            continue
        v = p.value
        if not R.check(v is not None and v[0] == "a" and len(v[3]) == 2, tag + ":pair", "%s::new does not return a known pair" % self_name, p):
            continue
        A, B = v[3]
        comps = [components(F, A), components(F, B)]
        R.check(all(comps), tag + ":opaque", "an endpoint created by %s::new is empty or unknown" % self_name, p)
        chans = {e[1]: e for e in p.ev("chan")}
        for n, e in chans.items():
            cap_ok = e[2].endswith("bounded") and e[3] == ("i", 1) and not e[2].endswith("unbounded")
            R.check(cap_ok, tag + ":capacity", "a channel created by %s::new is %s(%s), not bounded(1)" % (self_name, e[2].rsplit("::", 1)[1], sh(e[3])), p)
            where = {"tx": [], "rx": []}
            for side in (0, 1):
                for path, t in comps[side]:
                    if istok(t, "chan") and t[1][1] == n:
                        where[t[1][2]].append(side)
            used = where["tx"] or where["rx"]
            if not used:
                continue  # a channel nobody keeps carries nothing
            R.check(
                len(where["tx"]) == 1 and len(where["rx"]) == 1 and where["tx"] != where["rx"],
                tag + ":crossed",
                "%s::new gives the halves of one channel to the same side or leaves one out: sender in %s, receiver in %s" % (self_name, where["tx"], where["rx"]),
                p,
            )
            R.count("channels")
        bytok = [dict(), dict()]
        for side in (0, 1):
            for path, t in comps[side]:
                if istok(t, "chan"):
                    continue
                if istok(t, "new"):
                    if t[1][1] == "name":
                        continue  # name tokens carry no channel of a session; both sides keep the same name
                    bytok[side].setdefault((t[1][1], t[1][2]), []).append((t[1][3], path))
                    continue
                tt = t[2] if t[0] == "t" else None
                is_endpoint = tt and tt[0] == "adt" and (tt[1] in ENDPOINTS or tt[1].startswith("crossbeam_channel"))
                R.check(
                    not is_endpoint,
                    tag + ":component",
                    "%s of an endpoint of %s::new is %s, not a half of a fresh channel" % (".".join(path), self_name, sh(t)),
                    p,
                )
        for k in set(bytok[0]) | set(bytok[1]):
            a, b = bytok[0].get(k, []), bytok[1].get(k, [])
            good = len(a) == 1 and len(b) == 1 and a[0][0] != b[0][0] and a[0][1] == b[0][1]
            R.check(good, tag + ":pairs", "%s::new does not put the two sides of one fresh %s in the same field of both endpoints (%s / %s)" % (self_name, k[0], a, b), p)
            R.count("component pairs")
        # every channel-typed field of the declared endpoint types is filled from a fresh channel
        if im["self"][1] in ENDPOINTS:
            R.check(len([1 for path, t in comps[0] if istok(t, "chan")]) >= 1, tag + ":no-channel", "%s::new returns an endpoint without a fresh channel" % self_name, p)
        R.sample("%s::new -> %s" % (self_name, sh(v)))


SES = "mpstthree::binary::struct_trait::session::Session"
BIN = "mpstthree::binary::struct_trait::"
DUAL = {BIN + "send::Send": BIN + "recv::Recv", BIN + "recv::Recv": BIN + "send::Send"}


def equation(R, F, im):
    """the dual of a session: same payload, dual continuations, in their places"""
    t = im["self"]
    if t[0] != "adt" or t[1].startswith("mpstthree::binary_atmp::"):
        return  # T04 decides the timed ones
    tag = "dual:" + t[1]
    d = F.norm(im["types"]["Dual"]) if "Dual" in im["types"] else None
    want = DUAL.get(t[1], t[1])
    if not R.check(d is not None and d[0] == "adt" and d[1] == want and len(d[2]) == len(t[2]), tag, "the dual of %s is %s" % (ty_str(t), ty_str(d))):
        return
    for i, (x, y) in enumerate(zip(t[2], d[2])):
        if t[1] in DUAL and i == 0:
            good = x == y
        else:
            # a participant's name is its own dual, so it may be kept as it is
            good = (x == y and i == len(t[2]) - 1 and t[1].rsplit("::", 1)[1] != "Send") or any(F.norm(("alias", tr + "::Dual", (x,))) == y for tr in (SES, "mpstthree::role::Role", "mpstthree::name::Name"))
        R.check(good, "%s:%d" % (tag, i), "the dual of %s is %s: parameter %d is not %s" % (ty_str(t), ty_str(d), i, "kept" if t[1] in DUAL and i == 0 else "dual"))
    R.check(F.norm(("alias", SES + "::Dual", (d,))) == t, tag + ":involution", "the dual of the dual of %s is another type" % ty_str(t))
    R.count("dual equations")


def run(R, B):
    F = B.facts("mesh")
    for ik, im in sorted(F.impls.items()):
        if im.get("trait") != "mpstthree::binary::struct_trait::session::Session":
            continue
        R.count("session impls")
        equation(R, F, im)
        news = [i for i in im["items"] if i.endswith("::new")]
        R.check(len(news) == 1, "new:%s:anchor" % adt_name(im["self"]), "no new() in the Session impl of %s" % ty_str(im["self"]))
        for k in news:
            judge_new(R, F, k, im)
