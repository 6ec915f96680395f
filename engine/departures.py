"""Departing programs for M05: (id, offending body, well-behaved body, codes) per layer, generated.

Each case is one function on one line, so that a diagnostic is attributed to its case by line. Nothing is run."""

ROLES = ["Dora", "Bob", "Al", "Zed", "Mia"]
MISS = "E0599 E0308 E0277 E0271 E0631 E0061"
USE = "E0382"

PRE = """#![allow(warnings)]
pub mod pre {
    pub use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
    pub use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
    pub use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd};
    pub use either::Either;
    pub use std::collections::HashMap;
    pub use std::error::Error;
    pub use std::time::Instant;
    pub type R<T> = Result<T, Box<dyn Error>>;
    pub type Clocks = HashMap<char, Instant>;
    pub fn any<T>() -> T { loop {} }
}
"""


class Cases:
    def __init__(self):
        self.l = []
        self.mods = {}

    def add(self, name, mods, bad, good, codes=MISS):
        self.l.append((name, mods, bad, good, codes))


def binary(C):
    B = "mpstthree::binary::"
    st = {
        "send": "Send<i32, End>",
        "recv": "Recv<i32, End>",
        "end": "End",
        "choose": "Send<Either<End, Recv<u8, End>>, End>",
        "offer": "Recv<Either<End, Send<u8, End>>, End>",
    }
    ops = {
        "send": "mpstthree::binary::send::send(5i32, s)",
        "recv": "{ let r: R<(i32, End)> = mpstthree::binary::recv::recv(s); r }",
        "end": "mpstthree::binary::close::close(s)",
        "choose": "mpstthree::binary::choose::choose_right::<End, Send<u8, End>>(s)",
        "offer": "mpstthree::binary::offer::offer_either(s, |_: End| -> R<()> { Ok(()) }, |_: Send<u8, End>| -> R<()> { Ok(()) })",
    }
    for a in st:
        for b in ops:
            if a != b:
                C.add("binary:%s-for-%s" % (b, a), [], "pub fn f(s: %s) { let _ = %s; }" % (st[a], ops[b]), "pub fn f(s: %s) { let _ = %s; }" % (st[b], ops[b]))
        C.add("binary:%s-twice" % a, [], "pub fn f(s: %s) { let _ = %s; let _ = %s; }" % (st[a], ops[a], ops[a]), "pub fn f(s: %s, t: %s) { let _ = %s; let s = t; let _ = %s; }" % (st[a], st[a], ops[a], ops[a]), USE)
        C.add("binary:%s-after-cancel" % a, [], "pub fn f(s: %s) { mpstthree::binary::cancel::cancel(s); let _ = %s; }" % (st[a], ops[a]), "pub fn f(s: %s, t: %s) { mpstthree::binary::cancel::cancel(t); let _ = %s; }" % (st[a], st[a], ops[a]), USE)
    pay = "pub fn f(s: Send<i64, Recv<u8, End>>) { let _ = mpstthree::binary::send::send(%s, s); }"
    C.add("binary:payload", [], pay % "5i32", pay % "5i64")
    C.add("binary:payload-ref", [], "pub fn f(s: Send<String, End>) { let _ = mpstthree::binary::send::send(\"x\", s); }", "pub fn f(s: Send<String, End>) { let _ = mpstthree::binary::send::send(String::from(\"x\"), s); }")
    C.add("binary:received-type", [], "pub fn f(s: Recv<i32, End>) -> R<(i64, End)> { mpstthree::binary::recv::recv(s) }", "pub fn f(s: Recv<i32, End>) -> R<(i32, End)> { mpstthree::binary::recv::recv(s) }")
    C.add("binary:skips", [], "pub fn f(s: Send<i32, Recv<u8, End>>) -> End { mpstthree::binary::send::send(5, s) }", "pub fn f(s: Send<i32, Recv<u8, End>>) -> Recv<u8, End> { mpstthree::binary::send::send(5, s) }")
    C.add("binary:close-early", [], "pub fn f(s: Send<i32, Recv<u8, End>>) -> R<()> { mpstthree::binary::close::close(mpstthree::binary::send::send(5, s)) }", "pub fn f(s: Send<i32, End>) -> R<()> { mpstthree::binary::close::close(mpstthree::binary::send::send(5, s)) }")
    for n, bad, good in (
        ("same-side", "Send<i32, End>", "Recv<i32, End>"),
        ("payload", "Recv<i64, End>", "Recv<i32, End>"),
        ("length", "Recv<i32, Recv<u8, End>>", "Recv<i32, End>"),
        ("end", "End", "Recv<i32, End>"),
    ):
        for fn in ("fork", "fork_with_thread_id"):
            x = "" if fn == "fork" else ".1"
            t = "pub fn g(s: %s) -> R<()> { any() } pub fn f() -> Send<i32, End> { mpstthree::binary::fork::%s(g)%s }"
            C.add("binary:%s-%s" % (fn, n), [], t % (bad, fn, x), t % (good, fn, x))
            t = "pub fn g(s: %s, c: &mut Clocks) -> R<()> { any() } pub fn f() -> Send<i32, End> { mpstthree::binary_atmp::fork::%s(g)%s }"
            C.add("timed:%s-%s" % (fn, n), [], t % (bad, fn, x), t % (good, fn, x))
    ch = "pub fn f(s: %s) { let _: End = mpstthree::choose!(%s, s); } pub enum Br { A(End), B(Recv<u8, End>) }"
    C.add("binary:label", [], ch % ("Send<Either<End, End>, End>", "Br::A"), ch % ("Send<Br, End>", "Br::A"))


def ts(p, c="End", clock="a", bounds="1, true, 6, false", reset=" "):
    return "SendTimed<%s, '%s', %s, '%s', %s>" % (p, clock, bounds, reset, c)


def tr(p, c="End", clock="a", bounds="1, true, 6, false", reset=" "):
    return "RecvTimed<%s, '%s', %s, '%s', %s>" % (p, clock, bounds, reset, c)


def timed(C):
    A = "mpstthree::binary_atmp::"
    st = {"send": ts("i32"), "recv": tr("i32"), "end": "End", "choose": ts("Either<End, Recv<u8, End>>"), "offer": tr("Either<End, Send<u8, End>>")}
    ops = {
        "send": A + "send::send(5i32, c, s)",
        "defer": A + "send::send_without_reset(5i32, c, s)",
        "recv": "{ let r: R<(i32, End)> = %srecv::recv(c, s); r }" % A,
        "end": "mpstthree::binary::close::close(s)",
        "choose": A + "choose::choose_right::<End, Send<u8, End>, 'a', 1, true, 6, false, ' '>(c, s)",
        "offer": A + "offer::offer_either(c, s, |_: &mut Clocks, _: End| -> R<()> { Ok(()) }, |_: &mut Clocks, _: Send<u8, End>| -> R<()> { Ok(()) })",
    }
    t = "pub fn f(s: %s, c: &mut Clocks) { let _ = %s; }"
    for a in st:
        for b in ops:
            own = "send" if b == "defer" else b
            if a != own:
                C.add("timed:%s-for-%s" % (b, a), [], t % (st[a], ops[b]), t % (st[own], ops[b]))
        C.add("timed:%s-twice" % a, [], t % (st[a], ops[a] + "; let _ = " + ops[a]), t % (st[a], ops[a]), USE)
    for b, u in (("send", "Send<i32, End>"), ("recv", "Recv<i32, End>")):
        C.add("timed:%s-untimed" % b, [], t % (u, ops[b]), t % (st[b], ops[b]))
    C.add("timed:no-clocks", [], "pub fn f(s: %s) { let _ = %s; }" % (st["send"], "mpstthree::binary::send::send(5i32, s)"), "pub fn f(s: Send<i32, End>) { let _ = mpstthree::binary::send::send(5i32, s); }")
    C.add("timed:payload", [], t % (ts("i64"), ops["send"]), t % (ts("i32"), ops["send"]))
    C.add("timed:skips", [], "pub fn f(s: %s, c: &mut Clocks) -> R<End> { %ssend::send(5, c, s) }" % (ts("i32", tr("u8")), A), "pub fn f(s: %s, c: &mut Clocks) -> R<%s> { %ssend::send(5, c, s) }" % (ts("i32", tr("u8")), tr("u8"), A))
    C.add("timed:close-early", [], t % (tr("i32", ts("u8")), "mpstthree::binary::close::close(%srecv::recv(c, s).unwrap().1)" % A), t % (tr("i32"), "mpstthree::binary::close::close(%srecv::recv(c, s).unwrap().1)" % A))


def opname(o):
    return o.rsplit("s.", 1)[1].split("(")[0]


class Layer:
    """one family of meshes: how its types are written and its operations are called"""

    def __init__(self, name, mods, roles, mesh="MeshedChannels", timed=False, lib=False):
        self.name, self.mods, self.roles, self.mesh, self.tm, self.lib = name, mods, roles, mesh, timed, lib
        self.n = len(roles)

    def others(self, i):
        return [j for j in range(1, self.n + 1) if j != i]

    def r(self, j):
        return self.roles[j - 1]

    def m(self, i, slots, stack, name=None):
        return "%s<%s, %s, Name%s>" % (self.mesh, ", ".join(slots.get(j, "End") for j in self.others(i)), stack, self.r(name or i))

    def s(self, p, c="End"):
        return ts(p, c) if self.tm else "Send<%s, %s>" % (p, c)

    def v(self, p, c="End"):
        return tr(p, c) if self.tm else "Recv<%s, %s>" % (p, c)

    def fn(self, ty, expr):
        return "pub fn f(s: %s%s) { let _ = %s; }" % (ty, ", c: &mut Clocks" if self.tm else "", expr)

    # states of participant i, all with peer j
    def st(self, i, j):
        e = lambda k: self.m(k, {}, "RoleEnd")
        br = lambda k: "Either<%s, %s>" % (e(k), e(k))
        return {
            "send": self.m(i, {j: self.s("i32")}, "Role%s<RoleEnd>" % self.r(j)),
            "recv": self.m(i, {j: self.v("i32")}, "Role%s<RoleEnd>" % self.r(j)),
            "offer": self.m(i, {j: self.v(br(i))}, "RoleAllto%s<RoleEnd, RoleEnd>" % self.r(j)),
            "choose": self.m(i, {k: self.s(br(k)) for k in self.others(i)}, "Role%stoAll<RoleEnd, RoleEnd>" % self.r(i)),
            "close": self.m(i, {}, "RoleEnd"),
        }

    def ops(self, i):
        e = self.m(i, {}, "RoleEnd")
        if self.tm:
            f = "|_: &mut Clocks, _: %s| -> R<()> { Ok(()) }" % e
            return {"send": ["s.send(5i32, c)"], "recv": ["s.recv(c)"], "offer": ["s.offer(c, %s, %s)" % (f, f)], "choose": ["{ let r: R<%s> = s.choose_%s(c); r }" % (e, w) for w in ("left", "right")], "close": ["s.close()"]}
        f = "|_: %s| -> R<()> { Ok(()) }" % e
        return {"send": ["s.send(5i32)"], "recv": ["s.recv()"], "offer": ["s.offer(%s, %s)" % (f, f)], "choose": ["{ let r: %s = s.choose_%s(); r }" % (e, w) for w in ("left", "right")], "close": ["s.close()"]}


def methods(C, L, fork=None):
    for i in range(1, L.n + 1):
        ops = L.ops(i)
        for j in L.others(i):
            st = L.st(i, j)
            for a in st:
                if a in ("choose", "close") and j != L.others(i)[0]:
                    continue
                tag = "%s:%s-%s" % (L.name, L.r(i), L.r(j))
                for b in ops:
                    for o in ops[b]:
                        if a != b:
                            C.add("%s:%s-for-%s" % (tag, opname(o), a), L.mods, L.fn(st[a], o), L.fn(st[b], o))
                o = ops[a][0]
                C.add("%s:%s-twice" % (tag, a), L.mods, L.fn(st[a], "%s; let _ = %s" % (o, o)), L.fn(st[a], o), USE)
            tag = "%s:%s-%s" % (L.name, L.r(i), L.r(j))
            # payload
            C.add(tag + ":payload", L.mods, L.fn(L.m(i, {j: L.s("i64")}, "Role%s<RoleEnd>" % L.r(j)), ops["send"][0]), L.fn(st["send"], ops["send"][0]))
            # the stack names another peer than the one whose session is ready
            for k in L.others(i):
                if k == j:
                    continue
                for b, t in (("send", L.s("i32")), ("recv", L.v("i32"))):
                    C.add("%s:%s-but-stack-says-%s" % (tag, b, L.r(k)), L.mods, L.fn(L.m(i, {j: t}, "Role%s<RoleEnd>" % L.r(k)), ops[b][0]), L.fn(st[b], ops[b][0]))
                C.add("%s:offer-but-stack-says-%s" % (tag, L.r(k)), L.mods, L.fn(L.m(i, {j: L.v("Either<%s, %s>" % (L.m(i, {}, "RoleEnd"), L.m(i, {}, "RoleEnd")))}, "RoleAllto%s<RoleEnd, RoleEnd>" % L.r(k)), ops["offer"][0]), L.fn(st["offer"], ops["offer"][0]))
                # an endpoint used under the name of another participant
                if L.others(k).index(j if j != k else i) != L.others(i).index(j):
                    C.add("%s:as-%s" % (tag, L.r(k)), L.mods, L.fn(L.m(i, {j: L.s("i32")}, "Role%s<RoleEnd>" % L.r(j), name=k), ops["send"][0]), L.fn(st["send"], ops["send"][0]))
            C.add(tag + ":to-itself", L.mods, L.fn(L.m(i, {j: L.s("i32")}, "Role%s<RoleEnd>" % L.r(i)), ops["send"][0]), L.fn(st["send"], ops["send"][0]))
            C.add(tag + ":treated-as-other", L.mods, "pub fn g(s: %s) {} pub fn f(s: %s) { g(s) }" % (L.m(j, {}, "RoleEnd"), L.m(i, {}, "RoleEnd")), "pub fn g(s: %s) {} pub fn f(s: %s) { g(s) }" % (L.m(j, {}, "RoleEnd"), L.m(j, {}, "RoleEnd")))
            # closing with something left
            C.add(tag + ":close-session-left", L.mods, L.fn(L.m(i, {j: L.s("i32")}, "RoleEnd"), "s.close()"), L.fn(st["close"], "s.close()"))
            C.add(tag + ":close-stack-left", L.mods, L.fn(L.m(i, {}, "Role%s<RoleEnd>" % L.r(j)), "s.close()"), L.fn(st["close"], "s.close()"))
            # a choice while another session is not finished
            for k in L.others(i):
                if k != j:
                    C.add("%s:offer-session-left-%s" % (tag, L.r(k)), L.mods, L.fn(L.m(i, {j: L.v("Either<%s, %s>" % (L.m(i, {}, "RoleEnd"), L.m(i, {}, "RoleEnd"))), k: L.s("i32")}, "RoleAllto%s<RoleEnd, RoleEnd>" % L.r(j)), ops["offer"][0]), L.fn(st["offer"], ops["offer"][0]))
        # choices whose branches do not fit together
        e = lambda k, sl={}, nm=None: L.m(k, sl, "RoleEnd", nm)
        oth = L.others(i)
        full = lambda br: L.m(i, {k: L.s("Either<%s, %s>" % br(k)) for k in oth}, "Role%stoAll<RoleEnd, RoleEnd>" % L.r(i))
        good = full(lambda k: (e(k), e(k)))
        for x, o in enumerate(ops["choose"]):
            side = lambda k, m: (m, e(k)) if x == 0 else (e(k), m)
            tag = "%s:%s:%s" % (L.name, L.r(i), opname(o))
            for j in oth:
                C.add("%s:no-message-for-%s" % (tag, L.r(j)), L.mods, L.fn(L.m(i, {k: L.s("Either<%s, %s>" % (e(k), e(k))) for k in oth if k != j}, "Role%stoAll<RoleEnd, RoleEnd>" % L.r(i)), o), L.fn(good, o))
                for k in oth:
                    if k > j:
                        sd = {j: {k: L.s("i32")}, k: {j: L.v("i32")}}
                        sb = {j: {k: L.s("i32")}, k: {j: L.s("i32")}}
                        g = full(lambda q: side(q, e(q, sd.get(q, {}))))
                        b = full(lambda q: side(q, e(q, sb.get(q, {}))))
                        C.add("%s:branches-of-%s-%s" % (tag, L.r(j), L.r(k)), L.mods, L.fn(b, o), L.fn(g, o))
                        b = full(lambda q: side(q, e(q, {}, {j: k, k: j}.get(q))))
                        C.add("%s:names-of-%s-%s" % (tag, L.r(j), L.r(k)), L.mods, L.fn(b, o), L.fn(good, o))
    # participants that do not fit together
    if fork:
        ck = ", c: &mut Clocks" if L.tm else ""
        for i in range(1, L.n + 1):
            for j in range(i + 1, L.n + 1):
                for kind, x, y, z in (("same-side", L.s("i32"), L.v("i32"), L.s("i32")), ("payload", L.s("i32"), L.v("i32"), L.v("i64")), ("length", L.v("i32"), L.s("i32"), L.s("i32", L.v("u8"))), ("end", L.v("i32"), L.s("i32"), "End")):

                    def prog(other):
                        sl = {i: {j: x}, j: {i: other}}
                        fs = " ".join("pub fn p%d(s: %s%s) -> R<()> { any() }" % (k, L.m(k, sl.get(k, {}), "RoleEnd"), ck) for k in range(1, L.n + 1))
                        return "%s pub fn f() { let _ = %s(%s); }" % (fs, fork, ", ".join("p%d" % k for k in range(1, L.n + 1)))

                    C.add("%s:fork:%s-%s:%s" % (L.name, L.r(i), L.r(j), kind), L.mods, prog(z), prog(y))
        fs = " ".join("pub fn p%d(s: %s%s) -> R<()> { any() }" % (k, L.m(k, {2: L.s("i32")} if k == 1 else {1: L.v("i32")} if k == 2 else {}, "RoleEnd"), ck) for k in range(1, L.n + 1))
        al = ["p%d" % k for k in range(1, L.n + 1)]
        C.add("%s:fork:missing" % L.name, L.mods, "%s pub fn f() { let _ = %s(%s); }" % (fs, fork, ", ".join(al[:-1])), "%s pub fn f() { let _ = %s(%s); }" % (fs, fork, ", ".join(al)))
        if L.n > 2:
            C.add("%s:fork:misplaced" % L.name, L.mods, "%s pub fn f() { let _ = %s(%s); }" % (fs, fork, ", ".join([al[0], al[2], al[1]] + al[3:])), "%s pub fn f() { let _ = %s(%s); }" % (fs, fork, ", ".join(al)))


def library(C):
    """the free functions of the three-party layer"""
    L = Layer("lib", [], ["A", "B", "C"])
    F = "mpstthree::functionmpst::"
    for i in (1, 2, 3):
        for j in L.others(i):
            st = L.st(i, j)
            a, b = L.r(i).lower(), L.r(j).lower()
            e = L.m(i, {}, "RoleEnd")
            f0 = "|_: %s| -> R<()> { Ok(()) }" % e
            k = [x for x in L.others(i) if x != j][0]
            own = {
                "send": "%ssend::send_mpst_%s_to_%s(5i32, s)" % (F, a, b),
                "recv": "%srecv::recv_mpst_%s_from_%s(s)" % (F, a, b),
                "offer": "%soffer::offer_mpst_session_to_%s_from_%s(s, %s, %s)" % (F, a, b, f0, f0),
                "close": "%sclose::close_mpst(s)" % F,
            }
            if j == L.others(i)[0]:
                own["choose"] = "{ let r: %s = %schoose::choose_left_mpst_session_%s_to_all::<End, End, End, End, End, End, RoleEnd, RoleEnd, RoleEnd, RoleEnd, RoleEnd, RoleEnd>(s); r }" % (e, F, a)
            tag = "lib-fn:%s-%s" % (L.r(i), L.r(j))
            for o in own:
                for s in st:
                    if s != o:
                        C.add("%s:%s-for-%s" % (tag, o, s), L.mods, L.fn(st[s], own[o]), L.fn(st[o], own[o]))
                # another participant's endpoint, another peer's session
                if o in ("send", "recv", "offer"):
                    C.add("%s:%s-other-peer" % (tag, o), L.mods, L.fn(L.st(i, k)[o], own[o]), L.fn(st[o], own[o]))
                    C.add("%s:%s-other-owner" % (tag, o), L.mods, L.fn(L.st(j, i)[o], own[o]), L.fn(st[o], own[o]))
                    C.add("%s:%s-third-owner" % (tag, o), L.mods, L.fn(L.st(k, j)[o], own[o]), L.fn(st[o], own[o]))
                if o == "choose":
                    right = own[o].replace("choose_left", "choose_right")
                    for q in L.others(i):
                        for w, x in (("left", own[o]), ("right", right)):
                            C.add("%s:choose-%s-other-owner-%s" % (tag, w, L.r(q)), L.mods, L.fn(L.st(q, L.others(q)[0])["choose"], x), L.fn(st["choose"], x))
            C.add(tag + ":payload", L.mods, L.fn(L.m(i, {j: L.s("i64")}, "Role%s<RoleEnd>" % L.r(j)), own["send"]), L.fn(st["send"], own["send"]))
            C.add(tag + ":stack", L.mods, L.fn(L.m(i, {j: L.s("i32")}, "Role%s<RoleEnd>" % L.r(k)), own["send"]), L.fn(st["send"], own["send"]))
            C.add(tag + ":stack-recv", L.mods, L.fn(L.m(i, {j: L.v("i32")}, "Role%s<RoleEnd>" % L.r(k)), own["recv"]), L.fn(st["recv"], own["recv"]))
            C.add(tag + ":twice", L.mods, L.fn(st["send"], "%s; let _ = %s" % (own["send"], own["send"])), L.fn(st["send"], own["send"]), USE)
            C.add(tag + ":close-stack-left", L.mods, L.fn(L.m(i, {}, "Role%s<RoleEnd>" % L.r(j)), own["close"]), L.fn(st["close"], own["close"]))
            C.add(tag + ":close-session-left", L.mods, L.fn(L.m(i, {j: L.v("i32")}, "RoleEnd"), own["close"]), L.fn(st["close"], own["close"]))
    methods(C, Layer("lib", ["lib3"], ["A", "B", "C"]), "mpstthree::functionmpst::fork::fork_mpst")
    C.mods["lib3"] = "pub use mpstthree::meshedchannels::MeshedChannels; pub use mpstthree::name::{a::NameA, b::NameB, c::NameC}; pub use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};"
    for k, x in enumerate(C.l):
        if x[0].startswith("lib-fn:"):
            C.l[k] = (x[0], ["lib3"]) + x[2:]


def generated(C, tier):
    big = 3 if tier == "quick" else 4
    for var, n in (("basic", 2), ("basic", big), ("recursive", big), ("cancel", 2), ("cancel", big), ("rec_and_cancel", big), ("atmp", 2), ("atmp", 3)):
        mod = "g_%s_%d" % (var, n)
        roles = ROLES[:n]
        if var == "atmp":
            C.mods[mod] = "mpstthree::generate_atmp!(MeshedChannels, %s);" % ", ".join(roles)
        else:
            C.mods[mod] = 'mpstthree::generate!("%s", MeshedChannels, %s);' % (var, ", ".join(roles))
        methods(C, Layer(mod[2:], [mod], roles, timed=var == "atmp"), "fork_mpst")


def cases(tier):
    C = Cases()
    binary(C)
    timed(C)
    library(C)
    generated(C, tier)
    return C
