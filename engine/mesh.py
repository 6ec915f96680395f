"""Multiparty vocabulary: participants, slots, role stacks, wiring."""
import re

from core import *
from interp import Path, UNIT, ok as mk_ok, err as mk_err, tup
import models as _m

SEND_T = {"mpstthree::binary::struct_trait::send::Send", "mpstthree::binary_atmp::struct_trait::send::SendTimed"}
RECV_T = {"mpstthree::binary::struct_trait::recv::Recv", "mpstthree::binary_atmp::struct_trait::recv::RecvTimed"}
END_T = "mpstthree::binary::struct_trait::end::End"
LIB_MESH = "mpstthree::meshedchannels::MeshedChannels"

# ------------------------------------------------------------------ modular summaries of the timed primitives
# (what they do on their own session is decided by B02/T01..T03)


def timed_models(base=None):
    M = (base or MODELS).copy()

    def tsend(name):
        def m(I, st, a, c):
            pay, clocks, s = a[0], a[1], a[2]
            n = st.fresh()
            sty = s[2] if s is not None and s[0] == "t" else None
            cont = sty[2][-1] if sty and sty[0] == "adt" else None
            res = ("t", ("sendres", st.fresh()), c.dty)
            st.event("new", "session", n, cont, c.site)
            st.event("timedop", name, I.strip(st, clocks), s, res, c.site)
            ch = I.fld(s, 0, 0)
            st.event("send", ch, tup(pay, ("t", ("new", "session", n, 1), None)), "timed", I.strip(st, clocks), res, c.site)
            s2 = st.fork()
            st.tags[res] = 0
            s2.tags[res] = 1
            return [(st, mk_ok(("t", ("new", "session", n, 0), cont))), (s2, mk_err(I.fld(res, 1, 0)))]

        return m

    def trecv(I, st, a, c):
        clocks, s = a[0], a[1]
        res = ("t", ("recvres", st.fresh()), c.dty)
        st.event("timedop", "recv", I.strip(st, clocks), s, res, c.site)
        st.event("recv", I.fld(s, 0, 0), "timed", I.strip(st, clocks), res, c.site)
        s2 = st.fork()
        st.tags[res] = 0
        s2.tags[res] = 1
        return [(st, mk_ok(I.fld(res, 0, 0))), (s2, mk_err(I.fld(res, 1, 0)))]

    B = "mpstthree::binary_atmp::"
    M.exact[B + "send::send"] = tsend("send")
    M.exact[B + "send::send_without_reset"] = tsend("send_without_reset")
    M.exact[B + "recv::recv"] = trecv
    M.cache = {}
    return M


TIMED = timed_models()


# ------------------------------------------------------------------ meshes and participants
class Family:
    """one mesh type and the order of its participants"""

    def __init__(self, adt, order, mod):
        self.adt = adt
        self.order = order
        self.mod = mod
        self.n = len(order)

    def others(self, i):
        return [j for j in range(1, self.n + 1) if j != i]

    def slot(self, i, j):
        """index (1-based) of the session participant i holds with j"""
        return j if j < i else j - 1

    def idx(self, suffix):
        return self.order.index(suffix) + 1 if suffix in self.order else None


def families(F, specs):
    """specs: [(adt key, order, mod)] -> {adt key: Family}; only those that exist"""
    return {k: Family(k, o, m) for k, o, m in specs if k in F.adts}


def slot_fields(F, fam):
    """{slot: field index}, stack index, name index of the mesh struct"""
    fs = field_names(F, fam.adt)
    sl, stack, name = {}, None, None
    for i, f in enumerate(fs):
        m = re.fullmatch(r"session(\d+)", f)
        if m:
            sl[int(m.group(1))] = i
        elif f == "stack":
            stack = i
        elif f == "name":
            name = i
    return sl, stack, name


class MeshTy:
    def __init__(self, fam, t):
        self.fam = fam
        self.t = t
        self.slots = list(t[2][: fam.n - 1])
        self.stack = t[2][fam.n - 1]
        self.name = t[2][fam.n]

    def who(self):
        a = adt_name(self.name)
        return self.fam.idx(a[4:]) if a and a.startswith("Name") else None

    def head(self):
        """('to', peer) / ('fromall', peer) / ('toall', self) / ('broadcast',) / ('end',) / None"""
        return stack_head(self.fam, self.stack)


def stack_head(fam, t):
    a = adt_name(t)
    if a is None:
        return None
    if a == "RoleEnd":
        return ("end",)
    if a == "RoleBroadcast":
        return ("broadcast",)
    m = re.fullmatch(r"RoleAllto(\w+)", a)
    if m and fam.idx(m.group(1)):
        return ("fromall", fam.idx(m.group(1)))
    m = re.fullmatch(r"Role(\w+?)toAll", a)
    if m and fam.idx(m.group(1)):
        return ("toall", fam.idx(m.group(1)))
    m = re.fullmatch(r"Role(\w+?)(Dual)?", a)
    if m and fam.idx(m.group(1)):
        return ("to", fam.idx(m.group(1)))
    return None


def mesh_ty(F, fams, t):
    t = F.norm(t) if t else t
    if t and t[0] == "adt" and t[1] in fams and len(t[2]) == fams[t[1]].n + 1:
        return MeshTy(fams[t[1]], t)
    return None


def parts(F, fam, v):
    """({slot: value}, stack value, name value) of a mesh aggregate or token"""
    sl, st, nm = slot_fields(F, fam)
    if v is None:
        return None
    if v[0] == "a":
        if not (v[1][0] == "adt" and v[1][1] == fam.adt):
            return None
        g = lambda i: v[3][i] if i is not None and i < len(v[3]) else None
    elif v[0] == "t":
        g = lambda i: ("t", ("fld", v, 0, i), F.field_ty(v[2], 0, i)) if i is not None else None
    else:
        return None
    return {k: g(i) for k, i in sl.items()}, g(st), g(nm)


def same(a, b):
    """same token (types may be printed differently)"""
    return a is not None and b is not None and a[0] == "t" and b[0] == "t" and a[1][0] == b[1][0] and strip_ty(a) == strip_ty(b)


def strip_ty(v):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "t":
            return ("t", strip_ty(v[1]))
        return tuple(strip_ty(x) for x in v)
    return v


def fresh_dual(v, w):
    return istok(v, "new") and istok(w, "new") and v[1][1] == "session" == w[1][1] and v[1][2] == w[1][2] and v[1][3] != w[1][3]


def arg_slot(F, fam, tok, e):
    """slot of the mesh token `tok` whose session the channel event e uses, or None"""
    h = chan_holder(e[1])
    if h is None or not istok(h, "fld"):
        return None
    if not same(h[1][1], tok):
        return None
    sl, _, _ = slot_fields(F, fam)
    for k, i in sl.items():
        if i == h[1][3]:
            return k
    return None


def okval(p):
    return p.value[3][0] if is_ok(p.value) else p.value


def result_ty(t):
    return t is not None and t[0] == "adt" and t[1] == "core::result::Result"


def mesh_arg(F, fams, f, key=None):
    """(argument index, MeshTy) of the mesh argument of a function"""
    for i, t in enumerate(f.get("inputs", [])):
        t = t if t is None or t[0] != "ref" else None
        m = mesh_ty(F, fams, t)
        if m:
            return i, m
    return None, None


def label(F, key):
    """stable human-readable identity of a function"""
    f = F.fns[key]
    im = F.impls.get(f.get("impl"))
    base = key.split("::{impl#")[0]
    if im is not None:
        return "%s::<%s>::%s" % (base, ty_str(im["self"]), f["name"])
    return key


def brief(F, fams, key, mt):
    f = F.fns[key]
    who = mt.fam.order[mt.who() - 1] if mt.who() else "?"
    h = mt.head()
    to = mt.fam.order[h[1] - 1] if h and len(h) > 1 else (h[0] if h else "?")
    return "%s:%s[%s-%s]" % (key.split("::{impl#")[0].replace("::" + f["name"], ""), f["name"], who, to)


def wiring(R, F, fam, meshes, tag, p, what="meshes"):
    """meshes: {participant: {slot: value}}; every pair is joined by one private fresh dual pair"""
    good = R.check(set(meshes) == set(range(1, fam.n + 1)), tag + ":participants", "%s: endpoints for participants %s, expected one for each of %d" % (tag, sorted(meshes), fam.n), p)
    if not good:
        return
    used = {}
    for i in range(1, fam.n + 1):
        R.check(set(meshes[i]) == set(range(1, fam.n)), tag + ":slots", "%s: endpoint of %s has slots %s" % (tag, fam.order[i - 1], sorted(meshes[i])), p)
        for k, v in meshes[i].items():
            used.setdefault(repr(strip_ty(v)), []).append((i, k))
    for i in range(1, fam.n + 1):
        for j in range(i + 1, fam.n + 1):
            a = meshes[i].get(fam.slot(i, j))
            b = meshes[j].get(fam.slot(j, i))
            R.check(
                fresh_dual(a, b),
                tag + ":wiring:%s-%s" % (fam.order[i - 1], fam.order[j - 1]),
                "%s: the session of %s with %s is %s, the session of %s with %s is %s: not the two ends of one fresh session"
                % (tag, fam.order[i - 1], fam.order[j - 1], sh(a), fam.order[j - 1], fam.order[i - 1], sh(b)),
                p,
            )
            R.count("pairs wired")
    for t, l in used.items():
        R.check(len(l) == 1, tag + ":shared", "%s: one session end is held in %d places (%s)" % (tag, len(l), l), p)


def own_op(fam, f):
    """is f one of the operations a generator makes for its family (methods; free functions where the family is
    assembled from the building-block macros)"""
    if fam.mod.startswith(("mu_", "ca_")):
        return True
    return "impl" in f


def specs_of(B, name, tier):
    """families of a witness crate"""
    import genwitness as g

    out = [(LIB_MESH, ["A", "B", "C"], "lib")]
    w = "w_" + name
    if name == "mesh":
        for mod, var, n in g.mesh_modules(tier):
            out.append(("%s::%s::MeshedChannels" % (w, mod), g.ROLES[:n], mod))
        for mod, n in g.multi_modules(tier):
            out.append(("%s::%s::MeshedChannels" % (w, mod), g.ROLES[:n], mod))
        for mod, tm, r1, i1, r2, i2 in g.interleaved_modules(tier):
            out.append(("%s::%s::MeshOne" % (w, mod), r1, mod))
            out.append(("%s::%s::MeshTwo" % (w, mod), r2, mod))
    elif hasattr(g, "specs_" + name):
        out += [("%s::%s" % (w, k), o, m) for k, o, m in getattr(g, "specs_" + name)(tier)]
    return out


# ------------------------------------------------------------------ spawned participants
def spawned(R, I, p, tag):
    """[(spawn event, [paths of the thread body])] of a path of a fork function"""
    out = []
    for e in p.ev("spawn"):
        st = p.st.fork()
        st.trace = None
        keep, I.finished = I.finished, []
        try:
            rs = I.apply(st, e[1], [], None, e[3])
            ps = [Path(s, "return", v, None) for s, v in rs] + I.finished
        except Exception as x:
            R.check(False, tag + ":undecided", "the thread body started by %s cannot be analysed: %s" % (tag, x), p)
            ps = []
        finally:
            I.finished = keep
        R.fns |= I.analysed
        R.paths += len(ps)
        out.append((e, ps))
    return out


def forks(F, fams):
    """functions that create endpoints and start their participants themselves"""
    out = []
    for key, f in sorted(F.fns.items()):
        if "inputs" in f and "body" in f and f["name"].startswith("fork") and not f.get("trait"):
            out.append((key, f))
    return out


def is_mesh_value(fams, v):
    return v is not None and v[0] == "a" and v[1][0] == "adt" and v[1][1] in fams
