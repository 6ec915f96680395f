"""T04: timed session types are dual and carry their declared constraint unchanged."""
from timedops import *
import B01
import cfail

NEEDS = ["lib"]
SES = "mpstthree::binary::struct_trait::session::Session"
RULE = (
    "the dual of each timed session type is the other kind with the same payload, clock, bounds, flags and reset in their positions over the dual continuation, and dual of dual is the type itself; every path of new() stores in both endpoints exactly the declared constants, each in its own field; "
    "for every order type the reported constraint is the declared one in text; programs that pair endpoints with different constraints are rejected by the compiler while their twins compile"
)
EXPLAIN = "Associated-type equations over the type-checked impls, provenance of every stored constant on all paths of the constructors, text of the constraint on every path evaluated per order type, compile-fail witnesses with twins."
FLOORS = {"timed types": 2, "stored constants": 20, "constraint texts": 300, "witnesses": 8}
FIELDS = ["clock", "start", "include_start", "end", "include_end", "reset"]


def follow(c):
    t = c.targs[0] if c.targs else None
    return t is not None and t[0] == "adt" and t[1] in TIMED_T


def equation(R, F, im, tag):
    t = im["self"]
    d = F.norm(im["types"]["Dual"]) if "Dual" in im["types"] else None
    other = [x for x in TIMED_T if x != t[1]][0]
    if not R.check(d is not None and d[0] == "adt" and d[1] == other and len(d[2]) == 8, tag + ":dual", "the dual of %s is %s" % (ty_str(t), ty_str(d))):
        return
    R.check(d[2][:7] == t[2][:7], tag + ":dual-args", "the dual of %s is %s: payload or constraint changed" % (t, d))
    R.check(d[2][7] == F.norm(("alias", SES + "::Dual", (t[2][7],))), tag + ":dual-continuation", "the dual of %s does not go on with the dual continuation" % ty_str(t))
    R.check(F.norm(("alias", SES + "::Dual", (d,))) == t, tag + ":involution", "the dual of the dual of %s is another type" % ty_str(t))


def constructor(R, F, key, im, tag):
    ps, I = R.paths_of(F, key, follow=follow)
    if ps is None:
        return
    want = im["self"][2][1:7]
    for p in ps:
        v = p.value
        if not R.check(p.kind == "return" and v is not None and v[0] == "a" and len(v[3]) == 2, tag + ":new", "creating %s gives %s" % (tag, sh(v)), p):
            continue
        kinds = [x[1][1] if x is not None and x[0] == "a" else None for x in v[3]]
        R.check(kinds[0] == im["self"][1] and set(kinds) == TIMED_T, tag + ":new-kinds", "creating %s gives %s" % (tag, kinds), p)
        for x in v[3]:
            if x is None or x[0] != "a":
                continue
            names = field_names(F, x[1][1])
            R.check(x[1][2][1:7] == want, tag + ":new-type", "creating %s gives an endpoint with other parameters" % tag, p)
            for n, val in zip(names, x[3]):
                if n not in FIELDS:
                    continue
                w = want[FIELDS.index(n)]
                R.count("stored constants")
                good = istok(val, "cparam") and w[0] == "cparam" and val[1][1] == w[1]
                R.check(good, "%s:%s:%s" % (tag, adt_name(x[1]) if x[1][0] == "adt" else "?", n), "creating %s stores %s as %s, declared: %s" % (tag, sh(val), n, w), p)


def text(E, v):
    if v is None:
        raise Unknown("nothing")
    if v[0] == "s":
        return v[1]
    if v[0] == "x" and v[1] == "fmt":
        return "".join(text(E, x) for x in v[2])
    if v[0] == "x" and v[1] == "disp":
        v = v[2]
        if v[0] in ("s", "x") and (v[0] == "s" or v[1] in ("fmt", "disp")):
            return text(E, v)
        n = E.val(v)
        return chr(n) if n in (CLOCK, OTHER, THIRD) else str(n)
    raise Unknown(sh(v))


def declared(g):
    s, e, i, j = g[:4]
    if s < 0 and e < 0:
        return None
    t = ""
    if s >= 0:
        t = "%d %s " % (s, "<=" if i else "<")
    t += chr(CLOCK)
    if e >= 0:
        t += " %s %d" % ("<=" if j else "<", e)
    return t


def constraint(R, F, key, tag):
    ps, I = R.paths_of(F, key)
    if ps is None:
        return
    toks = set()
    for p in ps:
        for c in p.conds:
            walk_deref(c, toks)
        walk_deref(p.value, toks)
    if not R.check(len(toks) == 1, tag + ":constraint", "%s: the constraint does not look at the session" % tag):
        return
    tok = toks.pop()
    names = field_names(F, [t for t in TIMED_T if adt_name(("adt", t)) == tag][0])
    seen = set()
    for g in grid():
        if g[:4] in seen:
            continue
        seen.add(g[:4])
        E = env_of(g, tok, names)
        can = [p for p in ps if E.holds(p)]
        R.count("constraint texts")
        want = declared(g)
        R.check(bool(can), tag + ":constraint:" + group(g), "%s: no constraint for %s" % (tag, describe(g)))
        for p in can:
            if want is None:
                continue
            E.bind(p)
            try:
                got = text(E, I_strip(p, p.value)) if p.kind == "return" else p.kind
            except Unknown as u:
                got = "unknown (%s)" % u
            R.check(got == want, tag + ":constraint:" + group(g), "%s reports '%s' for %s" % (tag, got, want), p)


def I_strip(p, v):
    return v


def walk_deref(x, out):
    if not isinstance(x, tuple):
        return
    if len(x) == 3 and x[0] == "t" and isinstance(x[1], tuple) and x[1] == ("deref", ("arg", 0)):
        out.add(x)
        return
    for y in x:
        walk_deref(y, out)


def run(R, B):
    F = B.facts("lib")
    for ik, im in sorted(F.impls.items()):
        if im.get("trait") == SES and im["self"][0] == "adt" and im["self"][1] in TIMED_T:
            tag = adt_name(im["self"])
            R.count("timed types")
            equation(R, F, im, tag)
            news = [i for i in im["items"] if i.endswith("::new")]
            if R.check(len(news) == 1, tag + ":new", "%s has no new()" % tag):
                constructor(R, F, news[0], im, tag)
    for key, f in sorted(F.fns.items()):
        if f.get("name") == "constraint" and f.get("inputs"):
            t = f["inputs"][0]
            t = t[2] if t[0] == "ref" else t
            if t[0] == "adt" and t[1] in TIMED_T:
                constraint(R, F, key, adt_name(t))
    cfail.judge(R, B, "t04")
