"""Generates the witness crates: instances of the public macros whose expansion
is to be analysed.  Nothing here is ever executed."""


def generate(name, tier):
    return {"lib.rs": globals()["w_" + name](tier)}


HEAD = "#![allow(warnings)]\n"


def w_bin(tier):
    return HEAD + r"""
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use std::error::Error;
type R<T> = Result<T, Box<dyn Error>>;

pub enum Label {
    L0(Recv<i32, End>),
    L1(Send<bool, End>),
    L2(End),
    L3(Recv<u8, Recv<u8, End>>),
}
type Choice = Send<Label, End>;
type Branch = Recv<Label, End>;

pub fn choose_0(s: Choice) -> Send<i32, End> { mpstthree::choose!(Label::L0, s) }
pub fn choose_1(s: Choice) -> Recv<bool, End> { mpstthree::choose!(Label::L1, s) }
pub fn choose_2(s: Choice) -> End { mpstthree::choose!(Label::L2, s) }
pub fn choose_3(s: Choice) -> Send<u8, Send<u8, End>> { mpstthree::choose!(Label::L3, s) }

pub fn offer_labels<F0, F1, F2, F3, T>(s: Branch, f0: F0, f1: F1, f2: F2, f3: F3) -> R<T>
where
    F0: FnOnce(Recv<i32, End>) -> R<T>,
    F1: FnOnce(Send<bool, End>) -> R<T>,
    F2: FnOnce(End) -> R<T>,
    F3: FnOnce(Recv<u8, Recv<u8, End>>) -> R<T>,
{
    mpstthree::offer!(s, {
        Label::L0(s) => f0(s),
        Label::L1(s) => f1(s),
        Label::L2(s) => f2(s),
        Label::L3(s) => f3(s),
    })
}

pub enum Two<S: Session> { A(S), B(End) }
pub fn offer_two<S: Session, F0, F1, T>(s: Recv<Two<S>, End>, f0: F0, f1: F1) -> R<T>
where
    F0: FnOnce(S) -> R<T>,
    F1: FnOnce(End) -> R<T>,
    S: std::marker::Send,
{
    mpstthree::offer!(s, {
        Two::B(s) => f1(s),
        Two::A(s) => f0(s),
    })
}

pub type TimedBranch = mpstthree::binary_atmp::struct_trait::recv::RecvTimed<Label, 'a', 0, true, 5, true, ' ', End>;
pub fn offer_timed_labels<F0, F1, F2, F3, T>(clocks: &mut std::collections::HashMap<char, std::time::Instant>, s: TimedBranch, f0: F0, f1: F1, f2: F2, f3: F3) -> R<T>
where
    F0: FnOnce(Recv<i32, End>) -> R<T>,
    F1: FnOnce(Send<bool, End>) -> R<T>,
    F2: FnOnce(End) -> R<T>,
    F3: FnOnce(Recv<u8, Recv<u8, End>>) -> R<T>,
{
    mpstthree::offer_atmp!(clocks, s, {
        Label::L0(s) => f0(s),
        Label::L1(s) => f1(s),
        Label::L2(s) => f2(s),
        Label::L3(s) => f3(s),
    })
}

pub fn attempt_1<A, F1, H>(f1: F1, h: H)
where F1: FnOnce() -> R<A>, H: FnOnce(Box<dyn Error>) {
    use mpstthree::attempt;
    attempt! {{ f1(); } catch (e) { h(e) }}
}
pub fn attempt_2<A, B, F1, F2, H>(f1: F1, f2: F2, h: H)
where F1: FnOnce() -> R<A>, F2: FnOnce() -> R<B>, H: FnOnce(Box<dyn Error>) {
    use mpstthree::attempt;
    attempt! {{ f1(); f2(); } catch (e) { h(e) }}
}
pub fn attempt_3<A, B, C, F1, F2, F3, H>(f1: F1, f2: F2, f3: F3, h: H)
where F1: FnOnce() -> R<A>, F2: FnOnce() -> R<B>, F3: FnOnce() -> R<C>, H: FnOnce(Box<dyn Error>) {
    use mpstthree::attempt;
    attempt! {{ f1(); f2(); f3(); } catch (e) { h(e) }}
}
pub fn attempt_4<A, B, C, D, F1, F2, F3, F4, H>(f1: F1, f2: F2, f3: F3, f4: F4, h: H)
where F1: FnOnce() -> R<A>, F2: FnOnce() -> R<B>, F3: FnOnce() -> R<C>, F4: FnOnce() -> R<D>, H: FnOnce(Box<dyn Error>) {
    use mpstthree::attempt;
    attempt! {{ f1(); f2(); f3(); f4(); } catch (e) { h(e) }}
}

/// one instance of every construct the queries of B05 must find
pub mod fixture {
    use mpstthree::name::Name;
    use crossbeam_channel::Sender;
    use mpstthree::binary::struct_trait::end::End;
    #[derive(Clone, Default)]
    pub struct Tok { pub sender: Option<Sender<()>> }
    impl Name for Tok {
        type Dual = Tok;
        fn new() -> (Self, Self::Dual) { (Tok { sender: None }, Tok { sender: None }) }
        fn head_str() -> String { String::new() }
        fn tail_str() -> String { String::new() }
        fn self_head_str(&self) -> String { String::new() }
        fn self_tail_str(&self) -> String { String::new() }
    }
    unsafe impl Sync for Tok {}
    pub static HELD: std::sync::Mutex<Option<End>> = std::sync::Mutex::new(None);
    pub fn dup(s: &Sender<i32>) -> Sender<i32> { s.clone() }
    pub fn forget<T>(t: T) { std::mem::forget(t) }
    pub fn count(t: End) -> std::sync::Arc<End> { std::sync::Arc::new(t) }
    pub fn manual(t: End) { let _m = std::mem::ManuallyDrop::new(t); }
    pub fn forge() -> i32 { unsafe { *std::ptr::null::<i32>().wrapping_add(0) } }
    pub unsafe fn uf() {}
}
"""


# ------------------------------------------------------------------ n-party meshes
ROLES = ["Dora", "Bob", "Al", "Zed", "Mia", "Carl", "Quin", "Ada", "Ned", "Uma", "Lou", "Kit"]

MESH_USE = """    use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
    use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
    use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd};
    use std::collections::HashMap;
    use std::error::Error;
    use std::time::Instant;
    type R<T> = Result<T, Box<dyn Error>>;
"""


def others(n, i):
    return [j for j in range(1, n + 1) if j != i]


def plain_sess(i, j):
    return "Send<u8, End>" if i < j else "Recv<u8, End>"


def mesh_ty(name, roles, i, sess, stack, nm="Name"):
    """mesh of participant i: sess maps peer -> session type"""
    n = len(roles)
    return "%s<%s, %s, %s%s>" % (name, ", ".join(sess(j) for j in others(n, i)), stack, nm, roles[i - 1])


def timed(kind, payload, cont, j, clock=None, reset=None):
    """a timed session whose parameters depend on the pair, so that none can be swapped unnoticed"""
    c = "abcdef"[j % 6]
    r = " " if reset is None else reset
    return "%s<%s, '%s', %d, %s, %d, %s, '%s', %s>" % (kind, payload, c, j, "true" if j % 2 else "false", j + 5, "false" if j % 3 else "true", r, cont)


def branch_code(mesh, roles, s, tm, call_choose, offers=True, offer_head=None, offer_macro=None):
    """enums, choosers and offers for chooser s; the branch meshes are plain"""
    n = len(roles)
    out = []
    for j in others(n, s):
        m0 = mesh_ty(mesh, roles, j, lambda k: plain_sess(j, k), "RoleEnd")
        m1 = mesh_ty(mesh, roles, j, lambda k: "End", "RoleEnd")
        out.append("    pub enum B%d_%d { V0(%s), V1(%s), V2(%s) }" % (s, j, m0, m1, m0))

    def chooser_sess(j):
        p = "B%d_%d" % (s, j)
        if tm:
            # peers alternate between no reset and a reset of their own
            return timed("SendTimed", p, "End", j, reset=None if j % 2 else "xyzuvw"[j % 6])
        return "Send<%s, End>" % p

    full = mesh_ty(mesh, roles, s, chooser_sess, "RoleBroadcast")
    for name, labs, cont in (
        ("v0", lambda q: "V0", lambda k: plain_sess(s, k)),
        ("v1", lambda q: "V1", lambda k: "End"),
        ("mix", lambda q: "V0" if q % 2 else "V2", lambda k: plain_sess(s, k)),
    ):
        ret = mesh_ty(mesh, roles, s, cont, "RoleEnd")
        labels = ", ".join("B%d_%d::%s" % (s, j, labs(q)) for q, j in enumerate(others(n, s)))
        if tm:
            out.append("    pub fn choose_%d_%s(x: %s, clocks: &mut HashMap<char, Instant>) -> R<%s> {\n        let r: %s = %s;\n        Ok(r)\n    }" % (s, name, full, ret, ret, call_choose(s, "x", "clocks", labels)))
        else:
            out.append("    pub fn choose_%d_%s(x: %s) -> %s { %s }" % (s, name, full, ret, call_choose(s, "x", None, labels)))
    if offers:
        for j in others(n, s):
            m0 = mesh_ty(mesh, roles, j, lambda k: plain_sess(j, k), "RoleEnd")
            m1 = mesh_ty(mesh, roles, j, lambda k: "End", "RoleEnd")

            def os(k):
                if k != s:
                    return "End"
                p = "B%d_%d" % (s, j)
                return timed("RecvTimed", p, "End", j) if tm else "Recv<%s, End>" % p

            x = mesh_ty(mesh, roles, j, os, "Role%s<RoleEnd>" % roles[s - 1])
            ck = ", clocks: &mut HashMap<char, Instant>" if tm else ""
            ca = " clocks," if tm else ""
            if offer_macro:
                head = "mpstthree::%s!" % offer_macro(s, j)
            else:
                head = None
            out.append(
                "    pub fn offer_%d_%d<F0, F1, F2, T>(x: %s%s, f0: F0, f1: F1, f2: F2) -> R<T>\n"
                "    where F0: FnOnce(%s) -> R<T>, F1: FnOnce(%s) -> R<T>, F2: FnOnce(%s) -> R<T> {\n"
                "        %s(x,%s { B%d_%d::V2(s) => { f2(s) }, B%d_%d::V0(s) => { f0(s) }, B%d_%d::V1(s) => { f1(s) }, })\n    }"
                % (j, s, x, ck, m0, m1, m0, head if head else "offer_mpst!" if offer_head is None else "mpstthree::offer_mpst!", ca if offer_head is None else " %s," % offer_head(s, j), s, j, s, j, s, j)
            )
    return "\n".join(out)


# (module, generator variant, number of roles)
def mesh_modules(tier):
    big = 7 if tier == "quick" else 8
    m = []
    for v in ("basic", "recursive", "cancel", "rec_and_cancel"):
        for n in (2, 3, 4, 5, big):
            m.append(("%s_%d" % ("rc" if v == "rec_and_cancel" else v, n), v, n))
    if tier != "quick":
        m.append(("basic_12", "basic", 12))  # two-digit session numbers
    for n in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6):
        m.append(("atmp_%d" % n, "atmp", n))
    return m


# (module, timed, first roles, first index, second roles, second index)
def interleaved_modules(tier):
    m = [
        ("il_22", False, ["Barb", "Shop"], 2, ["Cli", "Sclient"], 2),
        ("il_32", False, ["Barb", "Shop", "Eve"], 1, ["Cli", "Sclient"], 1),
        ("il_34", False, ["Barb", "Shop", "Eve"], 2, ["Cli", "Sclient", "Gus", "Hal"], 3),
        ("ilt_22", True, ["Barb", "Shop"], 2, ["Cli", "Sclient"], 1),
        ("ilt_33", True, ["Barb", "Shop", "Eve"], 3, ["Cli", "Sclient", "Gus"], 2),
    ]
    return m


# (module, number of roles): the building-block macros of macros_multiple
def multi_modules(tier):
    return [("mu_%d" % n, n) for n in ((3, 4, 5) if tier == "quick" else (3, 4, 5, 6))]


def role_decls(roles):
    return [
        "    mpstthree::create_multiple_normal_role!(%s);" % " ".join("Role%s, Role%sDual |" % (r, r) for r in roles),
        "    mpstthree::create_multiple_broadcast_role!(%s);" % " ".join("Role%stoAll, RoleAllto%s |" % (r, r) for r in roles),
        "    mpstthree::create_multiple_normal_name!(%s);" % ", ".join("Name%s" % r for r in roles),
    ]


def pair_decls(macro, name, roles, pairs, n, link):
    out = []
    for i, j in pairs:
        k = j if j < i else j - 1
        out.append("    mpstthree::%s!(%s_%d_%s_%d, Role%s, Name%s, MeshedChannels, %d, %d);" % (macro, name, i, link, j, roles[j - 1], roles[i - 1], n, k))
    return out


def both_offers(n, roles, s, recv):
    """two participants offering the same choice of s in one thread (offer_mpst_interleaved!)"""
    out = []
    ps = others(n, s)
    for i, j in zip(ps, ps[1:]):
        for v in (0, 1):
            xs, rs, arms = [], [], []
            for q, k in (("x", i), ("y", j)):
                xs.append("%s: %s" % (q, mesh_ty("MeshedChannels", roles, k, lambda h, k=k: "Recv<B%d_%d, End>" % (s, k) if h == s else "End", "Role%s<RoleEnd>" % roles[s - 1])))
                rs.append(mesh_ty("MeshedChannels", roles, k, (lambda h, k=k: plain_sess(k, h)) if v == 0 else (lambda h: "End"), "RoleEnd"))
                arms.append("%s, %sB%d_%d::V%d" % (q, recv(k, s), s, k, v))
            out.append("    pub fn both_%d_%d_from_%d_v%d(%s) -> R<(%s)> {\n        Ok(mpstthree::offer_mpst_interleaved!(%s))\n    }" % (i, j, s, v, ", ".join(xs), ", ".join(rs), ", ".join(arms)))
    return out


def bundle_decls(macro, name, roles, pairs, n, link):
    out = []
    for i in sorted({i for i, _ in pairs}):
        each = ["%s_%d_%s_%d, Role%s, %d |" % (name, i, link, j, roles[j - 1], j if j < i else j - 1) for k, j in pairs if k == i]
        out.append("    mpstthree::%s!(%s => Name%s, MeshedChannels, %d);" % (macro, " ".join(each), roles[i - 1], n))
    return out


def all_pairs(n, lo=1):
    return [(i, j) for i in range(lo, n + 1) for j in range(lo, n + 1) if i != j]


def multi_body(n, roles):
    # every macro for one function has a sibling that makes several: odd sizes use these
    body = [MESH_USE]
    if n % 2:
        body.append("    mpstthree::bundle_struct_fork_close_multi!(close_mpst_multi, fork_mpst_multi, MeshedChannels, %d);" % n)
        body.append("    mpstthree::close_mpst_interleaved!(close_solo, MeshedChannels, %d);" % n)
        body.append("    mpstthree::fork_mpst_multi_solo!(fork_solo, MeshedChannels, %d);" % n)
    else:
        body.append("    mpstthree::bundle_struct_fork_close_multi_interleaved!(close_solo, fork_solo, MeshedChannels, %d);" % n)
        body.append("    mpstthree::close_mpst!(close_mpst_multi, MeshedChannels, %d);" % n)
        body.append("    mpstthree::fork_mpst_multi!(fork_mpst_multi, MeshedChannels, %d);" % n)
    body += role_decls(roles)
    decls = bundle_decls if n % 2 else pair_decls
    sfx = "_bundle" if n % 2 else ""
    body += decls("create_send_mpst_session" + sfx, "send_mpst", roles, all_pairs(n), n, "to")
    body += decls("create_send_mpst_cancel" + sfx, "send_canc", roles, all_pairs(n), n, "to")
    body += decls("create_recv_mpst_session" + sfx, "recv_mpst", roles, all_pairs(n), n, "from")
    body.append("    mpstthree::create_offer_type_multi!(OfferMulti, MeshedChannels, %d);" % n)
    body.append("    mpstthree::create_choose_type_multi!(ChooseMulti, MeshedChannels, %d);" % n)
    for i, j in all_pairs(n):
        body.append("    mpstthree::create_offer_mpst_session_multi!(offer_mpst_%d_to_%d, OfferMulti, RoleAllto%s, Name%s, MeshedChannels, %d, %d);" % (i, j, roles[j - 1], roles[i - 1], n, j if j < i else j - 1))
    body.append("    mpstthree::create_choose_mpst_session_multi_both!(choose_left_last, choose_right_last, ChooseMulti, Role%stoAll, Name%s, MeshedChannels, %d);" % (roles[-1], roles[-1], n))
    for s in range(1, n + 1):
        body.append("    mpstthree::choose_mpst_create_multi_to_all!(mk_%d, Name%s, MeshedChannels, %d);" % (s, roles[s - 1], s))
        body.append(branch_code("MeshedChannels", roles, s, False, lambda s, x, ck, labels: "mk_%d!(%s, %s)" % (s, x, labels), offer_head=lambda s, j: "recv_mpst_%d_from_%d" % (j, s)))
        m0 = mesh_ty("MeshedChannels", roles, s, lambda k: plain_sess(s, k), "RoleEnd")
        m1 = mesh_ty("MeshedChannels", roles, s, lambda k: "End", "RoleEnd")
        body.append(
            "    mpstthree::create_fn_choose_mpst_multi_to_all_bundle!(choose_fn%d_v0, choose_fn%d_v1, => V0, V1, => %s, %s, => %s => %s => Name%s, MeshedChannels, %d);"
            % (s, s, m0, m1, " ".join("B%d_%d," % (s, j) for j in others(n, s)), " ".join("Role%s," % roles[j - 1] for j in others(n, s)), roles[s - 1], s)
        )
    body += both_offers(n, roles, n, lambda k, s: "recv_mpst_%d_from_%d, " % (k, s))
    return body


def simple_body():
    """the building-block macros for three participants, on the library's own mesh"""
    roles = ["A", "B", "C"]
    low = [r.lower() for r in roles]
    body = [MESH_USE, "    use mpstthree::meshedchannels::MeshedChannels;\n    use mpstthree::functionmpst::{ChooseMpst, OfferMpst};"]
    for r, l in zip(roles, low):
        body.append("    use mpstthree::role::{%s::Role%s, %s_to_all::Role%stoAll, all_to_%s::RoleAllto%s};\n    use mpstthree::name::%s::Name%s;" % (l, r, l, r, l, r, l, r))
    for i, j in all_pairs(3):
        k = j if j < i else j - 1
        body.append("    mpstthree::create_send_mpst_session_%d!(send_%d_to_%d, Role%s, Name%s);" % (k, i, j, roles[j - 1], roles[i - 1]))
        body.append("    mpstthree::create_recv_mpst_session_%d!(recv_%d_from_%d, Role%s, Name%s);" % (k, i, j, roles[j - 1], roles[i - 1]))
        body.append("    mpstthree::create_offer_mpst_session_%d!(offer_either_%d_to_%d, RoleAllto%s, Name%s);" % (k, i, j, roles[j - 1], roles[i - 1]))
    for s in (1, 2, 3):
        x, y = others(3, s)
        names = (s, x, y, roles[x - 1], roles[y - 1], roles[s - 1], roles[s - 1])
        body.append("    mpstthree::create_choose_both_from_%d_to_%d_and_%d!(%%s, Name%s, Name%s, Role%stoAll, Name%s);" % names % ("choose_right_%d, choose_left_%d" % (s, s)))
    for s in (1, 2, 3):
        body.append(branch_code("MeshedChannels", roles, s, False, lambda s, x, ck, labels: "mpstthree::choose_mpst_%s_to_all!(%s, %s)" % (low[s - 1], x, labels), offer_macro=lambda s, j: "offer_mpst_%s_to_%s" % (low[j - 1], low[s - 1])))
    full = mesh_ty("MeshedChannels", roles, 3, lambda j: "Send<B3_%d, End>" % j, "RoleBroadcast")
    ret = mesh_ty("MeshedChannels", roles, 3, lambda k: plain_sess(3, k), "RoleEnd")
    body.append("    pub fn choose_to_all_mix(x: %s) -> %s { mpstthree::choose_mpst_to_all!(x, B3_1::V2, B3_2::V0, => NameC) }" % (full, ret))
    return body


def w_mesh(tier):
    out = [HEAD]
    out.append("pub mod simple {\n%s\n}" % "\n".join(simple_body()))
    for mod, var, n in mesh_modules(tier):
        roles = ROLES[:n]
        body = [MESH_USE]
        if var == "atmp":
            body.append("    mpstthree::generate_atmp!(MeshedChannels, %s);" % ", ".join(roles))
        else:
            body.append('    mpstthree::generate!("%s", MeshedChannels, %s);' % (var, ", ".join(roles)))
        tm = var == "atmp"

        def call(s, x, ck, labels, var=var, roles=roles):
            if var in ("recursive", "rec_and_cancel"):
                return "choose_mpst_%s_to_all!(%s, %s)" % (roles[s - 1].lower(), x, labels)
            if var == "atmp":
                return "choose_mpst_%s_to_all!(%s, %s, %s)" % (roles[s - 1].lower(), x, ck, labels)
            return "mpstthree::choose_mpst_multi_to_all!(%s, %s, => Name%s, MeshedChannels, %d)" % (x, labels, roles[s - 1], s)

        for s in range(1, n + 1):
            body.append(branch_code("MeshedChannels", roles, s, tm, call, offers=var != "cancel"))
        if var == "rec_and_cancel" and n > 2:
            body += both_offers(n, roles, 1, lambda k, s: "")
        out.append("pub mod %s {\n%s\n}" % (mod, "\n".join(body)))
    for mod, n in multi_modules(tier):
        out.append("pub mod %s {\n%s\n}" % (mod, "\n".join(multi_body(n, ROLES[:n]))))
    for mod, tm, r1, i1, r2, i2 in interleaved_modules(tier):
        out.append(
            'pub mod %s {\n%s\n    mpstthree::generate!("%s", MeshOne, %s, %d, MeshTwo, %s, %d, fork_il);\n}'
            % (mod, MESH_USE, "atmp_interleaved" if tm else "interleaved", ", ".join(r1), i1, ", ".join(r2), i2)
        )
    out.append(
        """pub mod tok_short {
    mpstthree::create_multiple_normal_role_short!(Xa, Yb);
    mpstthree::create_multiple_broadcast_role_short!(Xa, Yb);
    mpstthree::create_multiple_normal_name_short!(Xa, Yb);
}"""
    )
    return "\n".join(out)


# ------------------------------------------------------------------ the affine layer: participant 1 relays cancellations
def affine_modules(tier):
    return [("ca_%d" % n, n) for n in ((3, 4, 5) if tier == "quick" else (3, 4, 5, 6))]


def specs_aff(tier):
    return [("%s::MeshedChannels" % mod, ROLES[:n], mod) for mod, n in affine_modules(tier)]


def aff_peers(n, s):
    """the participants informed of a choice of s through their session with s (the broadcaster is told otherwise)"""
    return [j for j in range(2, n + 1) if j != s]


def aff_body(n, roles):
    M = "MeshedChannels"
    body = [MESH_USE, "    mpstthree::bundle_struct_fork_close_multi_cancel!(aff_close, aff_fork, %s, %d);" % (M, n)]
    body.append("    mpstthree::close_mpst_check_cancel!(check_close, %s, %d);" % (M, n))
    body += role_decls(roles)
    for i in range(2, n + 1):
        ps = [j for j in range(2, n + 1) if j != i]
        body.append(
            "    mpstthree::create_send_check_cancel_bundle!(%s => Name%s, %s, %d);"
            % (" ".join("send_check_%d_to_%d, Role%s, %d |" % (i, j, roles[j - 1], j if j < i else j - 1) for j in ps), roles[i - 1], M, n)
        )
    body += pair_decls("create_recv_mpst_session", "recv_mpst", roles, all_pairs(n, 2), n, "from")
    for i in range(2, n + 1):
        body.append('    mpstthree::send_cancel!(cancel_%d, Name%s, %s, %d, "gone");' % (i, roles[i - 1], M, n))
    w = mesh_ty(M, roles, 1, lambda k: "End", "RoleEnd")
    body.append("    pub fn watch(s: %s) -> R<()> { mpstthree::broadcast_cancel!(s, %d) }" % (w, n))
    sess = lambda i: (lambda k: "End" if k == 1 else plain_sess(i, k))
    for s in range(2, n + 1):
        ps = aff_peers(n, s)
        for j in ps:
            m0, m1 = mesh_ty(M, roles, j, sess(j), "RoleEnd"), mesh_ty(M, roles, j, lambda k: "End", "RoleEnd")
            body.append("    pub enum B%d_%d { V0(%s), V1(%s), V2(%s) }" % (s, j, m0, m1, m0))
        full = mesh_ty(M, roles, s, lambda k: "End" if k == 1 else "Send<(End, B%d_%d), End>" % (s, k), "RoleBroadcast")
        r0, r1 = mesh_ty(M, roles, s, sess(s), "RoleEnd"), mesh_ty(M, roles, s, lambda k: "End", "RoleEnd")
        body.append("    pub type C%d_0 = %s;\n    pub type C%d_1 = %s;" % (s, r0, s, r1))
        for name, lab, ret in (("v0", lambda q: "V0", r0), ("v1", lambda q: "V1", r1), ("mix", lambda q: "V0" if q % 2 else "V2", r0)):
            labels = ", ".join("B%d_%d::%s" % (s, j, lab(q)) for q, j in enumerate(ps))
            body.append(
                "    pub fn choose_%d_%s(x: %s) -> R<%s> {\n        let r: %s = mpstthree::choose_mpst_multi_cancel_to_all!(x, %s, => %s, => Name%s, Name%s, %s, %d);\n        Ok(r)\n    }"
                % (s, name, full, ret, ret, labels, ", ".join("Name%s" % roles[j - 1] for j in ps), roles[0], roles[s - 1], M, s)
            )
        body.append(
            "    mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_fn%d_v0, choose_fn%d_v1, => V0, V1, => C%d_0, C%d_1, => %s, => %s, => Name%s, Name%s, %s, %d);"
            % (s, s, s, s, ", ".join("B%d_%d" % (s, j) for j in ps), ", ".join("Name%s" % roles[j - 1] for j in ps), roles[0], roles[s - 1], M, s)
        )
        for j in ps:
            m0, m1 = mesh_ty(M, roles, j, sess(j), "RoleEnd"), mesh_ty(M, roles, j, lambda k: "End", "RoleEnd")
            x = mesh_ty(M, roles, j, lambda k: "Recv<(End, B%d_%d), End>" % (s, j) if k == s else "End", "Role%s<RoleEnd>" % roles[s - 1])
            body.append(
                "    pub fn offer_%d_%d<F0, F1, F2, T>(x: %s, f0: F0, f1: F1, f2: F2) -> R<T>\n"
                "    where F0: FnOnce(%s) -> R<T>, F1: FnOnce(%s) -> R<T>, F2: FnOnce(%s) -> R<T> {\n"
                "        mpstthree::offer_cancel_mpst!(x, recv_mpst_%d_from_%d, { B%d_%d::V2(s) => f2(s), B%d_%d::V0(s) => f0(s), B%d_%d::V1(s) => f1(s), })\n    }"
                % (j, s, x, m0, m1, m0, j, s, s, j, s, j, s, j)
            )
    return body


def w_aff(tier):
    return HEAD + "\n".join("pub mod %s {\n%s\n}" % (mod, "\n".join(aff_body(n, ROLES[:n]))) for mod, n in affine_modules(tier))


# ------------------------------------------------------------------ socket macros
def w_net(tier):
    out = [HEAD, """
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use std::error::Error;
type R<T> = Result<T, Box<dyn Error>>;
pub type Data = [u8; 128];

pub enum Label {
    L0(Recv<i32, End>),
    L1(Send<bool, End>),
    L2(End),
}
"""]
    for k in ("tcp", "udp"):
        for i, s in enumerate(("Send<i32, End>", "Recv<bool, End>", "End")):
            out.append("pub fn choose_%s_%d(s: Send<(Data, Label), End>, data: Data) -> %s { mpstthree::choose_%s!(Label::L%d, s, data) }" % (k, i, s, k, i))
        out.append(
            "pub fn offer_%s<F0, F1, F2, T>(s: Recv<(Data, Label), End>, f0: F0, f1: F1, f2: F2) -> R<T>\n"
            "where F0: FnOnce(Recv<i32, End>) -> R<T>, F1: FnOnce(Send<bool, End>) -> R<T>, F2: FnOnce(End) -> R<T> {\n"
            "    mpstthree::offer_%s!(s, { Label::L2(s) => f2(s), Label::L0(s) => f0(s), Label::L1(s) => f1(s), })\n}" % (k, k)
        )
    return "\n".join(out)


# ------------------------------------------------------------------ bottom-up checker
def chk_specs():
    """module -> (start types in the order given, groups of branches: (type adopted by the chooser, [(enum, branch)]))"""
    return {
        "none": (["FB", "FA", "FC"], []),
        "one": (["FC", "FA", "FB"], [("EV2", [("Br0CtoB", "V2"), ("Br0AtoB", "V2")]), ("FB", [("Br0AtoB", "V0"), ("Br0CtoB", "V0")]), ("EV1", [("Br0AtoB", "V1"), ("Br0CtoB", "V1")])]),
        "two": (["FA", "FB", "FC"], [("EV0", [("Br0AtoB", "V0"), ("Br0CtoB", "V0")]), ("EV1", [("Br0AtoB", "V1"), ("Br0CtoB", "V1")]), ("FC", [("Br1AtoC", "V1"), ("Br1BtoC", "V1")]), ("EW0", [("Br1AtoC", "V0"), ("Br1BtoC", "V0")])]),
        "single": (["FA", "FB", "FC"], [("EV1", [("Br0AtoB", "V1")])]),
    }


def w_chk(tier):
    out = [HEAD, """
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::meshedchannels::MeshedChannels;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, end::RoleEnd, broadcast::RoleBroadcast};
use mpstthree::name::{a::NameA, b::NameB, c::NameC};
pub type R = Result<(std::collections::HashMap<String, petgraph::Graph<String, String>>, Option<i32>), Box<dyn std::error::Error>>;
pub type FA = MeshedChannels<Recv<i32, End>, Send<bool, End>, RoleB<RoleC<RoleEnd>>, NameA>;
pub type FB = MeshedChannels<Send<i32, End>, Recv<u8, End>, RoleA<RoleC<RoleEnd>>, NameB>;
pub type FC = MeshedChannels<Recv<bool, End>, Send<u8, End>, RoleA<RoleB<RoleEnd>>, NameC>;
pub type EV0 = MeshedChannels<Send<i32, End>, End, RoleA<RoleEnd>, NameB>;
pub type EV1 = MeshedChannels<End, Send<i64, End>, RoleC<RoleEnd>, NameB>;
pub type EV2 = MeshedChannels<Recv<u16, End>, Send<i64, End>, RoleA<RoleC<RoleEnd>>, NameB>;
pub type EW0 = MeshedChannels<Recv<u16, End>, End, RoleA<RoleEnd>, NameC>;
pub type A0 = MeshedChannels<Recv<i32, End>, End, RoleB<RoleEnd>, NameA>;
pub type A1 = MeshedChannels<End, End, RoleEnd, NameA>;
pub type A2 = MeshedChannels<Send<u16, End>, End, RoleB<RoleEnd>, NameA>;
pub type C0 = MeshedChannels<End, End, RoleEnd, NameC>;
pub type C1 = MeshedChannels<End, Recv<i64, End>, RoleB<RoleEnd>, NameC>;
"""]
    for t in ("FA", "FB", "FC", "EV0", "EV1", "EV2", "EW0"):
        out.append("pub fn ty_%s(x: %s) {}" % (t.lower(), t))
    sess = {"Br0AtoB": ("A0", "A1", "A2"), "Br0CtoB": ("C0", "C1", "C1"), "Br1AtoC": ("A2", "A1"), "Br1BtoC": ("EV0", "EV1")}
    for mod, (starts, groups) in chk_specs().items():
        b = ["use super::*;"]
        for e in sorted({e for _, g in groups for e, _ in g}):
            used = {v for _, g in groups for e2, v in g if e2 == e}
            b.append("pub enum %s { %s }" % (e, ", ".join("V%d(%s)" % (k, t) for k, t in enumerate(sess[e]) if mod != "two" and len(used) != 2 or "V%d" % k in used)))
        if groups:
            b.append("mpstthree::checker_concat_impl!(%s);" % ", ".join("[%s]" % ", ".join("%s, %s" % x for x in g) for _, g in groups))
        b.append('pub fn check() -> R { mpstthree::checker_concat!("file_%s", %s%s) }' % (mod, ", ".join(starts), " => " + ", ".join("[%s, %s]" % (t, ", ".join("%s, %s" % x for x in g)) for t, g in groups) if groups else ""))
        out.append("pub mod %s {\n    %s\n}" % (mod, "\n    ".join(b)))
    return "\n".join(out)
