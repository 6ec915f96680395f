"""M06: role and name tokens agree with their dual."""
from core import *

NEEDS = ["mesh"]
ROLE, NAME = "mpstthree::role::Role", "mpstthree::name::Name"
RULE = (
    "every impl of Role and Name: Dual is the matching token (RoleX/RoleXDual, RoleXtoAll/RoleAlltoX, end, broadcast and names themselves) over the duals of the continuations in their order, and dual of dual is the token itself; "
    "every path of new() returns one aggregate of the token and one of its dual, each stored half of a channel belonging to a channel of this call, with no send, no wait and no refusal, and no stored sender can block on its first use; "
    "every continuation method returns, for a token of its n-th parameter, the first side of a token created in the call, on every path, without waiting and without refusing when the other side is gone"
)
EXPLAIN = "Associated-type equations of all role and name tokens (library, generators, declaration macros in all forms), evaluated over the type-checked impls; all paths of their constructors and continuation methods."
FLOORS = {"role tokens": 240, "name tokens": 60, "continuations": 370}


def dual_name(n):
    m = re.fullmatch(r"RoleAllto(\w+)", n)
    if m:
        return "Role%stoAll" % m.group(1)
    m = re.fullmatch(r"Role(\w+)toAll", n)
    if m:
        return "RoleAllto%s" % m.group(1)
    if n in ("RoleEnd", "RoleBroadcast"):
        return n
    m = re.fullmatch(r"Role(\w+)Dual", n)
    if m:
        return "Role" + m.group(1)
    return n + "Dual"


def mod_of(k):
    return k.rsplit("::", 1)[0]


def equation(R, F, im, is_role, tag):
    t, d = im["self"], F.norm(im["types"]["Dual"]) if "Dual" in im["types"] else None
    if not R.check(d is not None and d[0] == "adt", tag + ":dual", "%s has no known dual" % tag):
        return None
    n, dn = adt_name(t), adt_name(d)
    R.check(dn == (dual_name(n) if is_role else n), tag + ":dual", "the dual of %s is %s" % (ty_str(t), ty_str(d)))
    if not t[1].startswith("mpstthree::"):
        R.check(mod_of(t[1]) == mod_of(d[1]), tag + ":dual", "the dual of %s comes from another module (%s)" % (t[1], d[1]))
    want = tuple(F.norm(("alias", ROLE + "::Dual", (x,))) for x in t[2])
    R.check(d[2] == want, tag + ":params", "the dual of %s is %s: its continuations are not the duals of the token's, in order" % (ty_str(t), ty_str(d)))
    dd = F.norm(("alias", (ROLE if is_role else NAME) + "::Dual", (d,)))
    R.check(dd == t, tag + ":involution", "the dual of the dual of %s is %s" % (ty_str(t), ty_str(dd)))
    return d


def judge_new(R, F, key, im, d, tag):
    ps, I = R.paths_of(F, key)
    if ps is None:
        return
    for p in ps:
        if not R.check(p.kind == "return", tag + ":new-refuses", "creating %s can %s" % (tag, p.kind), p):
            continue
        R.check(not [e for e in p.events if e[0] in ("send", "recv")], tag + ":new-communicates", "creating %s uses a channel" % tag, p)
        v = p.value
        two = v is not None and v[0] == "a" and len(v[3]) == 2 and all(x is not None and x[0] == "a" and x[1][0] == "adt" for x in v[3])
        if not R.check(two, tag + ":new-pair", "creating %s returns %s" % (tag, sh(v)), p):
            continue
        a, b = v[3]
        R.check(a[1][1] == im["self"][1] and b[1][1] == d[1], tag + ":new-pair", "creating %s returns %s and %s" % (tag, a[1][1], b[1][1]), p)
        caps = {e[1]: e for e in p.ev("chan")}
        held = {}
        for side, x in enumerate((a, b)):
            for y in x[3]:
                if R.check(istok(y, "chan") and y[1][1] in caps, tag + ":new-channel", "%s stores %s, not a channel of its own" % (tag, sh(y)), p):
                    held.setdefault(y[1][1], {}).setdefault(y[1][2], []).append(side)
        for n, h in held.items():
            e = caps[n]
            R.check(len(h.get("tx", [])) <= 1 and len(h.get("rx", [])) <= 1, tag + ":new-shared", "%s stores one half of a channel twice" % tag, p)
            if h.get("tx") and h.get("rx"):
                R.check(e[2].endswith("unbounded") or (e[3] is not None and e[3][0] == "i" and e[3][1] >= 1), tag + ":new-capacity", "a token of %s can block its owner: channel %s(%s)" % (tag, e[2], sh(e[3])), p)
                R.check(h["tx"] != h["rx"], tag + ":new-crossed", "%s gives both halves of a channel to one side" % tag, p)


def judge_continuation(R, F, key, f, tag, index):
    self_t = f["inputs"][0]
    self_t = self_t[2] if self_t[0] == "ref" else self_t
    out = f["output"]
    if out[0] == "adt" and out[1] == "core::result::Result":
        out = out[2][0]
    R.count("continuations")
    name = f["name"]
    R.check(index < len(self_t[2]) and F.norm(out) == self_t[2][index], "%s:%s:declared" % (tag, name), "%s of %s gives a token of %s" % (name, ty_str(self_t), ty_str(out)))
    ps, I = R.paths_of(F, key)
    if ps is None:
        return
    for p in ps:
        if not R.check(p.kind == "return" and not is_err(p.value), "%s:%s:refuses" % (tag, name), "%s of %s can refuse (%s %s)" % (name, tag, p.kind, sh(p.value)), p):
            continue
        R.check(not p.ev("recv"), "%s:%s:waits" % (tag, name), "%s of %s waits" % (name, tag), p)
        seen = []
        for e in p.ev("send"):
            seen.append(repr(e[1]))
        R.check(len(seen) == len(set(seen)), "%s:%s:sends" % (tag, name), "%s of %s sends twice on one channel and may block" % (name, tag), p)
        v = p.value[3][0] if is_ok(p.value) else p.value
        good = istok(v, "new") and v[1][1] == "role" and v[1][3] == 0
        R.check(good, "%s:%s:token" % (tag, name), "%s of %s returns %s, not the near side of a fresh token" % (name, tag, sh(v)), p)
        if good:
            created = [e for e in p.ev("new") if e[2] == v[1][2]]
            R.check(len(created) == 1 and created[0][3] is not None and F.norm(created[0][3]) == F.norm(out), "%s:%s:token" % (tag, name), "%s of %s creates a token of %s" % (name, tag, ty_str(created[0][3]) if created else "?"), p)


METHODS = {0: [], 1: [("continuation", 0)], 2: [("continuation_left", 0), ("continuation_right", 1)]}


def run(R, B):
    F = B.facts("mesh")
    by_self = {}
    for key, f in F.fns.items():
        if f.get("name", "").startswith("continuation") and "body" in f and f.get("inputs"):
            t = f["inputs"][0]
            t = t[2] if t[0] == "ref" else t
            if t[0] == "adt":
                by_self.setdefault(t[1], {})[f["name"]] = key
    for ik, im in sorted(F.impls.items()):
        if im.get("trait") not in (ROLE, NAME):
            continue
        is_role = im["trait"] == ROLE
        if im["self"][0] != "adt":
            R.check(False, "impl:%s" % ik, "Role or Name is implemented for %s" % ty_str(im["self"]))
            continue
        tag = im["self"][1]
        R.count("role tokens" if is_role else "name tokens")
        d = equation(R, F, im, is_role, tag)
        news = [i for i in im["items"] if i.rsplit("::", 1)[1] == "new"]
        if R.check(len(news) == 1, tag + ":anchor", "%s has no new()" % tag) and d is not None:
            judge_new(R, F, news[0], im, d, tag)
        R.sample("%s: dual %s" % (ty_str(im["self"]), ty_str(d)))
        if is_role:
            have = by_self.get(im["self"][1], {})
            for name, index in METHODS.get(len(im["self"][2]), []):
                if R.check(name in have, "%s:%s:anchor" % (tag, name), "%s has no %s" % (tag, name)):
                    judge_continuation(R, F, have[name], F.fns[have[name]], tag, index)
