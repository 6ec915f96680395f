"""Rule harness: obligations, violations, evidence, helpers over paths."""
import json
import os
import re
import time

from facts import Facts
from interp import Interp, Undecided, State
import models as _models

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rule:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = 0
        self.viol = {}
        self.fns = set()
        self.paths = 0
        self.counts = {}
        self.samples = []
        self.rule = ""
        self.notes = []
        self.t0 = time.time()

    # ------------------------------------------------------------ verdicts
    def check(self, cond, key, msg, path=None):
        """one obligation; `key` identifies the violation without line numbers"""
        self.obl += 1
        if cond:
            return True
        if key not in self.viol:
            self.viol[key] = {"key": key, "message": msg, "trace": trace(path) if path is not None else None}
        return False

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        n = self.counts.get(name, 0)
        self.check(n >= least, "coverage:%s" % name, "only %d instance(s) of '%s' found, %d were counted by hand: an anchor of the property is missing" % (n, name, least))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    # ------------------------------------------------------------ engine
    def paths_of(self, F, key, args=None, env=None, st=None, mods=None, follow=None, opaque=(), max_paths=20000, max_visits=64, merge=None, oracle=None):
        I = Interp(F, mods or MODELS, max_paths=max_paths, opaque=opaque, max_visits=max_visits)
        I.oracle = oracle
        if merge:
            I.merge = (key,) + (merge if isinstance(merge, tuple) else (merge,))
        if follow:
            I.follow_new = follow
        try:
            ps = I.run(key, args, env, st)
        except Undecided as e:
            self.check(False, "%s:undecided" % short(key), "analysis of %s stops: %s" % (key, e))
            return None, I
        except RecursionError:
            self.check(False, "%s:undecided" % short(key), "analysis of %s does not terminate" % key)
            return None, I
        self.fns |= I.analysed
        self.paths += len(ps)
        return ps, I


MODELS = _models.build()


def short(key):
    return re.sub(r"\{impl#\d+\}::", "", key)


# ---------------------------------------------------------------- printing
def sh(v, d=0):
    if v is None:
        return "_"
    if not isinstance(v, tuple):
        return str(v)
    if not v or not isinstance(v[0], str):
        return "(" + ",".join(sh(x, d + 1) for x in v) + ")"
    if d > 9:
        return "..."
    k = v[0]
    if k == "i":
        return str(v[1])
    if k == "s":
        return repr(v[1])
    if k == "a" and len(v) == 4:
        kind = v[1]
        name = kind[1].rsplit("::", 1)[1] if kind[0] in ("adt", "closure") and len(kind) > 1 and "::" in kind[1] else kind[0]
        if kind[0] == "adt":
            name += "#%d" % v[2]
        return name + "(" + ", ".join(sh(x, d + 1) for x in v[3]) + ")"
    if k == "l":
        return "[" + ", ".join(sh(x, d + 1) for x in v[1]) + "]"
    if k == "t" and len(v) == 3:
        return ids(v[1], d)
    if k == "f":
        return "fn " + v[2]
    if k == "r":
        return "&cell" + "".join("." + str(p[1]) for p in v[2])
    if k == "x":
        return v[1] + "(" + ", ".join(sh(x, d + 1) for x in v[2:]) + ")"
    return "(" + ",".join(sh(x, d + 1) if isinstance(x, tuple) else str(x) for x in v) + ")"


def ids(i, d=0):
    if i[0] == "fld":
        return sh(i[1], d + 1) + ".%d" % i[3] + ("" if i[2] == 0 else "@%d" % i[2])
    if i[0] == "arg":
        return "arg%s" % i[1]
    if i[0] == "new":
        return "new_%s#%d.%d" % (i[1], i[2], i[3])
    return i[0] + "".join(("#%s" % x) if not isinstance(x, tuple) else "<" + sh(x, d + 1) + ">" for x in i[1:])


def trace(p):
    out = []
    for e in p.events:
        out.append(" ".join([e[0]] + [sh(x) if isinstance(x, tuple) else str(x) for x in e[1:-1]]))
    out.append("=> %s %s" % (p.kind, sh(p.value)))
    return out


# ---------------------------------------------------------------- token helpers
def istok(v, *kinds):
    return v is not None and v[0] == "t" and (not kinds or v[1][0] in kinds)


def root(v):
    """(root token, [(variant, field index)...]) of a field chain"""
    path = []
    while istok(v, "fld") or istok(v, "deref"):
        if v[1][0] == "fld":
            path.append((v[1][2], v[1][3]))
            v = v[1][1]
        else:
            inner = v[1][1]
            v = ("t", inner, None)
    path.reverse()
    return v, path


def walk(v, fn, seen=None):
    """calls fn on every value nested in v (not through references)"""
    if v is None or not isinstance(v, tuple):
        return
    fn(v)
    if v[0] == "a":
        for x in v[3]:
            walk(x, fn)
    elif v[0] in ("l", "it"):
        for x in v[1]:
            walk(x, fn)


def leaves(F, v):
    out = []

    def f(x):
        if x[0] == "t":
            out.append(x)

    walk(v, f)
    return out


def field_names(F, tykey, variant=0):
    a = F.adts.get(tykey)
    return [f[0] for f in a["variants"][variant][2]] if a else []


def adt_name(t):
    return t[1].rsplit("::", 1)[1] if t and t[0] == "adt" else None


def ty_str(t):
    if t is None:
        return "?"
    if t[0] == "adt":
        return adt_name(t) + ("<" + ",".join(ty_str(x) for x in t[2]) + ">" if t[2] else "")
    if t[0] in ("prim", "param", "cparam", "cval", "other"):
        return str(t[1])
    if t[0] == "ref":
        return "&" + ty_str(t[2])
    if t[0] == "tuple":
        return "(" + ",".join(ty_str(x) for x in t[1]) + ")"
    if t[0] == "alias":
        return "<" + ",".join(ty_str(x) for x in t[2]) + " as>::" + t[1].rsplit("::", 1)[1]
    return t[0]


SESSION_ADTS = {
    "mpstthree::binary::struct_trait::send::Send", "mpstthree::binary::struct_trait::recv::Recv",
    "mpstthree::binary::struct_trait::end::End", "mpstthree::binary_atmp::struct_trait::send::SendTimed",
    "mpstthree::binary_atmp::struct_trait::recv::RecvTimed",
}


def chan_holder(ch):
    """the session / role token a channel token was taken from"""
    if istok(ch, "fld"):
        return ch[1][1]
    return None


def chan_kind(F, ch, kinds=None):
    """'session' / 'role' / 'fresh' / 'other' for a channel value"""
    if istok(ch, "chan"):
        return "fresh"
    h = chan_holder(ch)
    if h is None:
        return "other"
    t = h[2]
    if t and t[0] == "adt":
        if t[1] in SESSION_ADTS:
            return "session"
        n = adt_name(t)
        for tr in ("mpstthree::role::Role",):
            for ik, im in F._by_trait.get(tr, []):
                if im["self"][0] == "adt" and im["self"][1] == t[1]:
                    return "role"
        for ik, im in F._by_trait.get("mpstthree::name::Name", []):
            if im["self"][0] == "adt" and im["self"][1] == t[1]:
                return "name"
    return "other"


def holder_path(F, h):
    """readable, position-independent path of a session token: names of fields"""
    r, p = root(h)
    names = []
    t = r[2]
    for va, i in p:
        if t and t[0] == "adt" and t[1] in F.adts:
            fs = F.adts[t[1]]["variants"][va][2]
            names.append(fs[i][0] if i < len(fs) else str(i))
        else:
            names.append(str(i))
        t = F.field_ty(t, va, i) if t else None
    return r, names


def session_events(F, path):
    """send/recv events on session channels (role and name tokens left out)"""
    out = []
    for e in path.events:
        if e[0] in ("send", "recv"):
            k = chan_kind(F, e[1])
            if k in ("role", "name"):
                continue
            out.append(e)
    return out


def res_of(e):
    return e[5] if e[0] == "send" else e[4]


def mode_of(e):
    return e[3] if e[0] == "send" else e[2]


def is_err(v):
    return v is not None and v[0] == "a" and v[1][0] == "adt" and v[1][1] == "core::result::Result" and v[2] == 1


def is_ok(v):
    return v is not None and v[0] == "a" and v[1][0] == "adt" and v[1][1] == "core::result::Result" and v[2] == 0


def failed(p):
    """the path ends in a refusal (error or panic)"""
    if p.kind in ("panic", "exit"):
        return True
    if p.kind == "return":
        v = p.value
        if is_err(v):
            return True
        if istok(v) and p.tags.get(v) == 1 and v[2] and v[2][0] == "adt" and v[2][1] == "core::result::Result":
            return True
    return False


def tag_of(p, tok):
    return p.tags.get(tok)


def ok_payload(tok):
    """matches the Ok payload token of a result token"""
    def m(v):
        return istok(v, "fld") and v[1][1] == tok and v[1][2] == 0
    return m


def payload_parts(p, res, i):
    return


def is_fld_of(v, base, variant, idx):
    return istok(v, "fld") and v[1][1] == base and v[1][2] == variant and v[1][3] == idx


def ok_field(v, res, idx):
    """v is field idx of the tuple carried by Ok of `res`"""
    return istok(v, "fld") and v[1][3] == idx and is_fld_of(v[1][1], res, 0, 0)


def facts(paths):
    return Facts(paths)
