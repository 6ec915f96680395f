"""The primitive timed operations, shared by T01-T03."""
from window import *

B = "mpstthree::binary_atmp::"
OPS = {B + "send::send": "send", B + "send::send_without_reset": "send", B + "recv::recv": "recv"}
TIMED_T = {B + "struct_trait::send::SendTimed", B + "struct_trait::recv::RecvTimed"}


def session_arg(F, f):
    for i, t in enumerate(f["inputs"]):
        if t and t[0] == "adt" and t[1] in TIMED_T:
            return i, t
    return None, None


def analyse(R, F, key):
    """-> (paths, session token, field names) or None"""
    f = F.fns.get(key)
    if not R.check(f is not None and "body" in f, "anchor:" + key, "%s is gone" % key):
        return None
    i, t = session_arg(F, f)
    if not R.check(i is not None, "anchor:" + key, "%s takes no timed session" % key):
        return None
    ps, I = R.paths_of(F, key)
    if ps is None:
        return None
    toks = set()
    names = field_names(F, t[1])
    tok = ("t", ("arg", i), None)
    # the token carries its type; take it from the interpreter's own naming
    for p in ps:
        for e in p.events:
            for x in e[1:]:
                walk_tok(x, i, toks)
        for c in p.conds:
            walk_tok(c, i, toks)
    toks = [x for x in toks]
    if not R.check(len(toks) == 1, "anchor:%s:session" % key, "%s: its session argument is not used (%d)" % (key, len(toks))):
        return None
    R.count("operations")
    return ps, toks[0], names


def walk_tok(x, i, out):
    if not isinstance(x, tuple):
        return
    if len(x) == 3 and x[0] == "t" and x[1] == ("arg", i):
        out.add(x)
        return
    for y in x:
        walk_tok(y, i, out)


def transfer(F, p, tok):
    """channel events of a path on the channel of the session"""
    return [e for e in session_events(F, p) if istok(e[1], "fld") and same_arg(e[1][1][1], tok)]


def same_arg(a, b):
    return a is not None and a[0] == "t" and a[1] == b[1]


def by_rep(ps, tok, names):
    """[(representative, environment, paths that can be taken)]"""
    for g in grid():
        E = env_of(g, tok, names)
        yield g, E, [p for p in ps if E.holds(p)]


def describe(g):
    s, e, i, j, d, hc, r, hr = g
    return "start %d%s, end %d%s, elapsed %.1f s%s%s" % (
        s, " included" if i else "", e, " included" if j else "", float(d), "" if hc else ", no such clock",
        ", no reset" if r == 0 else ", reset of " + ("the same clock" if r == 1 else "another clock") + ("" if hr else " (missing)"))
