"""B05: session endpoints cannot be duplicated, leaked or forged."""
from mesh import *
import cfail

NEEDS = ["mesh", "bin"]
RULE = (
    "no Clone/Copy/ToOwned/Default impl covers a session, multiparty, role or name type (library and generated); no call in the library clones a channel half or an endpoint, or forgets, leaks, reference-counts or manually drops a value "
    "whose type contains an endpoint or a type parameter; no static holds an endpoint; no unsafe block, function or impl; every cancel drops all of its endpoint on every returning path and makes no channel operation; "
    "no function that only borrows an endpoint uses its channels; programs that clone or reuse an endpoint are rejected by the compiler with the expected error while their twins compile"
)
EXPLAIN = "Whole-crate queries over impls, resolved call sites (with their type arguments), statics and unsafe regions of the library and of every generator expansion; path analysis of the cancel functions; compile-fail witnesses with compiling twins. The fixture crate contains one instance of each forbidden construct and must be flagged."
FLOORS = {"endpoint types": 60, "call sites": 5000, "cancels": 25, "borrowing functions": 100, "witnesses": 10}

FIX = "w_bin::fixture::"
SES = "mpstthree::binary::struct_trait::session::Session"
ROLE = "mpstthree::role::Role"
NAME = "mpstthree::name::Name"
DUP = {"std::clone::Clone", "std::marker::Copy", "std::default::Default", "std::borrow::ToOwned", "std::clone::CloneToUninit"}
CHAN = ("crossbeam_channel::channel::Sender", "crossbeam_channel::channel::Receiver")
LEAK = re.compile(r"std::mem::(forget|forget_unsized)|std::mem::ManuallyDrop::<.*>::new|std::boxed::Box::<.*>::(leak|into_raw|into_non_null|into_raw_with_allocator)|std::(rc::Rc|sync::Arc)::<.*>::(new|from|pin|new_cyclic)|std::vec::Vec::<.*>::leak|std::mem::MaybeUninit::<.*>::(new|write)|std::thread::LocalKey.*::set|std::sync::OnceLock::<.*>::(set|get_or_init)")


def endpoint_types(F):
    out = {}
    for tr in (SES, ROLE, NAME):
        for ik, im in F._by_trait.get(tr, []):
            if im["self"][0] == "adt":
                out[im["self"][1]] = tr
    return out


def contains(t, pred):
    if not t or not isinstance(t, tuple):
        return False
    if isinstance(t[0], str) and pred(t):
        return True
    return any(contains(x, pred) for x in t[1:] if isinstance(x, tuple)) or any(
        contains(y, pred) for x in t[1:] if isinstance(x, tuple) for y in x if isinstance(y, tuple)
    )


def fn_consts(node, out):
    """function references inside a MIR body"""
    if isinstance(node, (list, tuple)):
        if node and node[0] == "fn" and len(node) == 6:
            out.append(node)
            return
        for x in node:
            fn_consts(x, out)


def scan(R, F, crates, planted=False):
    """forbidden constructs: {kind: [key, message]}"""
    hits = []
    mine = lambda k: k.startswith(FIX) == planted
    ends = endpoint_types(F)
    is_end = lambda t: t[0] == "adt" and t[1] in ends
    is_gen = lambda t: t[0] == "param"
    is_chan = lambda t: t[0] == "adt" and t[1] in CHAN
    n_sites = 0
    for ik, im in F.impls.items():
        if im.get("crate") not in crates or not mine(ik):
            continue
        if im.get("trait") in DUP and im["self"][0] == "adt" and im["self"][1] in ends and im.get("polarity", "Positive") == "Positive":
            hits.append(("impl", "impl:%s:%s" % (im["trait"].rsplit("::", 1)[1], im["self"][1]), "%s implements %s: its values can be duplicated or made from nothing" % (im["self"][1], im["trait"])))
        if im.get("unsafe"):
            hits.append(("unsafe", "unsafe-impl:%s" % ik, "unsafe impl %s" % ik))
    for key, f in F.fns.items():
        if f["crate"] not in crates or not mine(key) or key.startswith(("core::", "either::", "std::")):
            continue
        if f.get("unsafe"):
            hits.append(("unsafe", "unsafe-fn:%s" % key, "%s is an unsafe function" % key))
        if f["kind"].startswith("Static") and "body" in f:
            t = f["body"]["locals"][0][0]
            if contains(t, lambda x: is_end(x) or is_chan(x)):
                hits.append(("static", "static:%s" % key, "the static %s holds an endpoint" % key))
        if "body" not in f:
            continue
        cs = []
        for b in f["body"]["blocks"]:
            if b is not None:
                fn_consts(b, cs)
        for c in cs:
            n_sites += 1
            nice, targs, tr = c[2], c[4], c[3]
            ts = [t for t in targs if isinstance(t, tuple)]
            if tr == "std::clone::Clone" and ts and contains_owned(ts[0], lambda x: is_end(x) or is_chan(x)):
                hits.append(("clone", "clone:%s:%s" % (key, ty_str(ts[0])), "%s clones a value of type %s" % (key, ty_str(ts[0]))))
            if LEAK.match(nice) and any(contains(t, lambda x: is_end(x) or is_chan(x) or is_gen(x)) for t in ts):
                hits.append(("leak", "leak:%s:%s" % (key, nice), "%s calls %s on a value of type %s" % (key, nice, ", ".join(ty_str(t) for t in ts))))
    for u in F.unsafe:
        if u[0].split("::")[0] in crates and mine(u[0]):
            hits.append(("unsafe", "unsafe-block:%s" % u[0], "unsafe block in %s (%s:%d)" % (u[0], u[1][0], u[1][1])))
    return hits, n_sites, ends


def contains_owned(t, pred):
    """like contains, but not behind a reference (copying a reference duplicates nothing)"""
    if not t or not isinstance(t, tuple) or t[0] in ("ref", "ptr"):
        return False
    if isinstance(t[0], str) and pred(t):
        return True
    return any(contains_owned(y, pred) for x in t[1:] if isinstance(x, tuple) for y in (x if x and isinstance(x[0], tuple) else (x,)) if isinstance(y, tuple))


def cancels(R, F, fams, crates):
    ends = endpoint_types(F)
    for key, f in sorted(F.fns.items()):
        if "inputs" not in f or "body" not in f or f["crate"] not in crates or key.startswith(("core::", "either::")):
            continue
        if not re.fullmatch(r"cancel(_tcp|_udp)?", f["name"]):
            continue
        R.count("cancels")
        tag = label(F, key)
        ps, I = R.paths_of(F, key)
        for p in ps or []:
            R.check(not session_events(F, p) and not p.ev("chanq"), tag + ":operation", "%s uses the channels of the endpoint it cancels" % tag, p)
            if p.kind != "return":
                continue
            dropped = [strip_ty(e[1]) for e in p.ev("drop")]
            a = ("t", ("arg", 0))
            whole = a in dropped
            t = f["inputs"][0]
            if not whole and t and t[0] == "adt":
                n = F.nfields(t, 0) or 0
                whole = n > 0 and all(("t", ("fld", a, 0, i)) in dropped for i in range(n))
            R.check(whole, tag + ":drop", "%s returns without having dropped the endpoint it cancels" % tag, p)


def borrowing(R, F, fams, crates):
    """functions that only borrow endpoints do not use their channels"""
    ends = endpoint_types(F)
    ses = {k for k, tr in ends.items() if tr == SES}
    # a private function that is called elsewhere is judged as part of its callers, which are the ones a program can use
    called = set()
    for key, f in F.fns.items():
        cs = []
        fn_consts([b for b in (f.get("body") or {}).get("blocks", []) if b is not None], cs)
        called.update(c[1] for c in cs if c[1] != key)
    for key, f in sorted(F.fns.items()):
        if "inputs" not in f or "body" not in f or f["crate"] not in crates or key.startswith(("core::", "either::")):
            continue
        refs = [i for i, t in enumerate(f["inputs"]) if t and t[0] == "ref" and contains(t, lambda x: x[0] == "adt" and x[1] in ends)]
        if not refs or key.startswith("mpstthree::binary::select::"):
            continue
        R.count("borrowing functions")
        if not f["vis"] and "::{" not in key and key in called:
            continue
        tag = label(F, key)
        ps, I = R.paths_of(F, key)
        for p in ps or []:
            used = []
            for e in p.events:
                if e[0] in ("send", "recv") and chan_kind(F, e[1]) == "session":
                    r, _ = root(e[1])
                    if istok(r, "arg") and r[1][1] in refs:
                        used.append(e)
            R.check(not used, tag + ":borrow", "%s uses the channel of an endpoint it only borrows: the endpoint can be used again" % tag, p)
        out = f["output"]
        R.check(not contains(out, lambda x: x[0] == "adt" and (x[1] in ses or x[1] in CHAN)) or (out[0] == "ref"), tag + ":hands-out", "%s borrows an endpoint and hands out %s" % (tag, ty_str(out)))


def run(R, B):
    # the queries see the forbidden constructs of the fixture
    kinds = {h[1] for h in scan(R, B.facts("bin"), ["w_bin"], planted=True)[0]}
    for want in ("impl:Clone:Tok", "impl:Default:Tok", "clone:dup:", "unsafe-block:forge", "unsafe-fn:uf", "static:HELD", "leak:forget:", "leak:count:", "leak:manual:", "unsafe-impl:"):
        k, rest = want.split(":", 1)
        hit = [x for x in kinds if x.startswith(k + ":") and x.replace(FIX, "").startswith(want)]
        R.check(bool(hit), "fixture:" + want, "the query does not find the planted construct '%s' of the fixture: %s" % (want, sorted(kinds)))
        R.count("planted constructs found", len(hit) > 0)
    for name in NEEDS:
        F = B.facts(name)
        fams = families(F, specs_of(B, name, R.tier))
        crates = [c for c in F.crates if name == NEEDS[0] or c != "mpstthree"]
        hits, n, ends = scan(R, F, crates)
        R.count("call sites", n)
        R.count("endpoint types", len([k for k in ends if k.split("::")[0] in crates]))
        for kind, key, msg in hits:
            R.check(False, key, msg)
        R.obl += n
        cancels(R, F, fams, crates)
        borrowing(R, F, fams, crates)
    cfail.judge(R, B, "b05")
