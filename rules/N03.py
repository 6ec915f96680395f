"""N03: the generated code contains every step, choice and participant that was read."""
import re

from nuscr import *
from interp import State, Interp
from models import some

NEEDS = ["lib"]
RULE = (
    "for a protocol with nested choices, on every path of the emitting functions the generator calls on which no write failed, the text written contains each collected session type and ordering type exactly once; each chain that is still open is closed "
    "by one End (RoleEnd) declaration of its last name, and a chain that is not is left alone; each informed participant of each choice gets one enum with one variant per branch, in order, holding its endpoint of that branch; each endpoint lists the first "
    "sessions with the others in the order of the participants, then its first ordering and its own name; each message and payload type is declared once; each participant has a function taking its endpoint and starting its own clocks; the channels "
    "are generated for, and the participants forked in, the order of the participants; a write that fails is reported"
)
EXPLAIN = "Paths of every function of the code emitter reachable from the generator on a symbolic protocol (three participants, a choice within a choice), with the text of each write assembled as a term over the collected names; names are only ever compared and printed, so distinct names stand for all."
FLOORS = {"emitters": 3, "items": 60, "failing writes": 3}
STRING = ("adt", "alloc::string::String", ())
GEN = "mpstthree::top_down_nuscr::generator::generator"
ROLES = ("Amy", "Amyx", "Bob", "Cid")


class Builder:
    """terms for the collected protocol, and the names they stand for"""

    def __init__(self, F):
        self.F, self.st, self.ids, self.n = F, State(), {}, 0

    def name(self, text):
        t = ("t", ("name", self.n), STRING)
        self.ids[("name", self.n)] = text
        self.n += 1
        return t

    def map(self, ty, entries):
        self.n += 1
        w = ("t", ("map", "m%d" % self.n), ty)
        for k, v in entries:
            self.st.mem[("mapval", w, k)] = ("i", 1)
            self.st.mem[("M", w, k)] = v
        return w

    def fields(self, adt):
        return [(x[0], x[2]) for x in self.F.adts[adt]["variants"][0][2]]

    def struct(self, adt, vals):
        fs = self.fields(adt)
        miss = [n for n, _ in fs if n not in vals]
        if miss:
            raise Unknown("fields %s of %s" % (miss, adt))
        return ("a", ("adt", adt, ()), 0, tuple(vals[n] if not callable(vals[n]) else vals[n](t) for n, t in fs))


def part(b, roles, ix, subs, choice, want, msgs):
    """one part of the protocol; choice: (sender, highest branch) or None; want: what has to be written"""
    tree = K + "Tree"
    s = "_".join(map(str, ix))
    inner = lambda t: t[2][1] if t[0] == "adt" and len(t[2]) > 1 else None
    L = lambda *a: ("l", tuple(a))

    def pairs(mk):
        return lambda t: b.map(t, [(r, b.map(inner(t), [(q, mk(i, j)) for j, q in enumerate(roles) if j != i])) for i, r in enumerate(roles)])

    def each(mk):
        return lambda t: b.map(t, [(r, mk(i)) for i, r in enumerate(roles)])

    def steps(i, j):
        l = []
        for k in range((i + j + len(ix)) % 3):
            x = "step<%s,%d,%d,%d>;" % (s, i, j, k)
            want[x] = 1
            l.append(b.name(x))
        return L(*l)

    def orders(i):
        l = []
        for k in range((i + len(ix)) % 3):
            x = "order<%s,%d,%d>;" % (s, i, k)
            want[x] = 1
            l.append(b.name(x))
        return L(*l)

    def last(i, j):
        if choice is not None and (i + j) % 2:
            return b.name("")
        x = "LastMessage_%s_%d_%d" % (s, i, j)
        want["type %s = End;" % x] = 1
        return b.name(x)

    def lasts(i):
        if choice is not None and i != 1:
            return b.name("")
        x = "LastOrdering_%s_%d" % (s, i)
        want["type %s = RoleEnd;" % x] = 1
        return b.name(x)

    firsts = {(i, j): "First_%s_%d_%d" % (s, i, j) for i in range(len(ROLES)) for j in range(len(ROLES))}
    for i, r in enumerate(ROLES):
        e = "Endpoint_%s_For%s" % (s, r)
        want["type %s = MeshedChannels< %s, FirstOrdering_%s_%d, Name%s>;" % (e, ", ".join(firsts[i, j] for j in range(len(ROLES)) if j != i), s, i, r)] = 1
        want[("fn", "endpoint_%s_%s_v_0" % (r.lower(), s), e, i)] = 1
    if choice is not None:
        for i, r in enumerate(ROLES):
            if i != choice[0]:
                br = "".join(" Branching%d(Endpoint_%s_%d_For%s)," % (k, s, k, r) for k in range(choice[1] + 1))
                want["enum Choice_%s_From%sTo%s {%s }" % (s, ROLES[choice[0]], r, br)] = 1
    for m, p in msgs:
        want["struct %s;" % m if not p else "struct %s { payload: %s }" % (m, p)] = 1
    return b.struct(tree, {
        "index": L(*[("i", x) for x in ix]),
        "messages_with_payloads": lambda t: b.map(t, [(b.name(m), b.name(p)) for m, p in msgs]),
        "messages": pairs(steps),
        "first_message": pairs(lambda i, j: b.name(firsts[i, j])),
        "last_message": pairs(last),
        "previous_message_wrt_clocks": lambda t: b.map(t, []),
        "stacks": each(orders),
        "first_stack": each(lambda i: b.name("FirstOrdering_%s_%d" % (s, i))),
        "last_stack": each(lasts),
        "enums": lambda t: b.map(t, [] if choice is None else [(b.name("e" + s), ("a", ("tuple",), 0, (roles[choice[0]], ("i", choice[1]))))]),
        "endpoints": each(lambda i: L(b.name("Endpoint_%s_For%s" % (s, ROLES[i])))),
        "sub_trees": L(*subs),
    })


CLOCKS = (("x", "y"), (), ("x",), ("z", "a", "b"))


def protocol(F):
    b = Builder(F)
    want = {}
    roles = [b.name(r) for r in ROLES]
    low = [part(b, roles, (0, 0, 1, k), [], None, want, [("Low%d" % k, "Text")]) for k in range(2)]
    leaf = [part(b, roles, (0, 0, k), low if k else [], (3, 1) if k else None, want, [("Late", "Text")] if k else [("Hello", ""), ("Deep", "")]) for k in range(2)]
    mid = [part(b, roles, (0, 0), leaf, (2, 1), want, [("Data", "Text")]), part(b, roles, (0, 1), [], None, want, [("Hello", "")]), part(b, roles, (0, 2), [], None, want, [])]
    tree = part(b, roles, (0,), mid, (1, 2), want, [("Hello", ""), ("Sum", "Number")])
    L = lambda *a: ("l", tuple(a))
    want["struct Text;"] = want["struct Number;"] = 1
    want["generate_atmp!(MeshedChannels, %s);" % ", ".join(ROLES)] = 1
    g = b.struct(K + "GlobalElements", {
        "output_path": b.name("out"),
        "output": lambda t: some(("t", ("file", 0), t[2][0])),
        "roles": L(*roles),
        "payloads": L(b.name("Number"), b.name("Text")),
        "clocks": lambda t: b.map(t, [(r, L(*[b.name(c) for c in CLOCKS[i]])) for i, r in enumerate(roles)]),
        "loops": lambda t: b.map(t, []),
        "opening_brackets": ("i", 3),
        "closing_brackets": ("i", 3),
    })
    return b, g, tree, want


def emit_models(marks):
    mods = MODELS.copy()

    def write(I, st, a, c):
        f = I.strip(st, a[0])
        if f is None or f[0] != "t" or f[1][0] != "file":
            return None
        v = I.strip(st, a[1])
        t = ("t", ("written", c.site, st.fresh()), c.dty)
        st.event("emit", v, t, c.site)
        return [(st, t)]

    def items(I, st, a, c):
        v = I.strip(st, a[0])
        if v is None or v[0] != "l":
            return None
        out = []
        for x in v[1]:
            cell = ("H", st.fresh())
            st.mem[cell] = x
            out.append(("r", cell, ()))
        return [(st, ("it", tuple(out)))]

    def octets(I, st, a, c):
        return [(st, I.strip(st, a[0]))]

    mods.pats.insert(0, (re.compile(r"(std::string::String|(core|std|alloc)::str::<impl str>)::(as_bytes|into_bytes)\Z"), octets))
    mods.pats.insert(0, (re.compile(r"std::io::Write::(write_fmt|write_all)\Z"), write))
    mods.pats.insert(0, (re.compile(r"<.* as std::io::Write>::(write_fmt|write_all)\Z"), write))
    mods.pats.insert(0, (re.compile(r"std::collections::HashSet::<.*>::iter\Z"), items))
    mods.cache = {}
    return mods


def normal(text):
    text = "\n".join(l for l in text.split("\n") if not l.strip().startswith("//"))
    return re.sub(r"\s+", " ", text)


def run(R, B):
    F = B.facts("lib")
    if not R.check(GEN in F.fns, "generator:missing", "the generator is gone"):
        return
    called = emitters(R, F)
    if called is None:
        return
    R.count("emitters", len(called))
    whole, n = [], 0
    for key, flags in called:
        b, g, tree, want = protocol(F)
        texts = texts_of(R, F, key, flags, b, g, tree)
        if texts is None:
            return
        tag = short(key)
        if not R.check(len(set(texts)) == 1, tag + ":text", "%s writes %d different texts for one protocol" % (tag, len(set(texts)))):
            continue
        whole.append(texts[0])
    text = normal("\n".join(whole))
    _, _, _, want = protocol(F)
    for w in sorted(want, key=repr):
        R.count("items")
        if isinstance(w, tuple):
            _, fn, ty, i = w
            m = re.findall(r"fn %s\( ?s: ?([^,]*), ?all_clocks: &mut HashMap<char, Instant> ?\) -> Result<\(\), Box<dyn Error>> \{([^}]*)\}" % re.escape(fn), text)
            if R.check(len(m) == 1, "emit:fn", "the function %s is declared %d times" % (fn, len(m))):
                R.check(m[0][0].strip() == ty, "emit:fn-type", "%s takes an endpoint of type %s instead of %s" % (fn, m[0][0].strip(), ty))
                cl = sorted(re.findall(r"all_clocks\.insert\( ?'(\w+)', ?Instant::now\(\) ?\);", m[0][1]))
                R.check(cl == sorted(CLOCKS[i]), "emit:clocks", "%s starts the clocks %s, but the participant uses %s" % (fn, cl, sorted(CLOCKS[i])))
            continue
        k = count(text, w)
        kind = re.match(r"\w+", w).group(0) + (" End" if " = End;" in w else " RoleEnd" if " = RoleEnd;" in w else "")
        R.check(k == 1, "emit:" + kind, "%r is written %d times" % (w, k))
    # nothing that closes a chain which goes on
    for x in ("type = End;", "type = RoleEnd;"):
        R.check(x not in text, "emit:nameless", "%r is written" % x)
    for pat, what in ((r"type \w+ = End;", "End"), (r"type \w+ = RoleEnd;", "RoleEnd"), (r"enum \w+", "enum"), (r"struct \w+", "struct"), (r"type \w+ = MeshedChannels<", "endpoint")):
        have = len(re.findall(pat, text))
        need = len([w for w in want if isinstance(w, str) and re.match(pat, w)])
        R.check(have == need, "emit:count " + what, "%d declarations of kind %s are written instead of %d" % (have, what, need))
    m = re.findall(r"let \( ?([^)]*)\) = fork_mpst\( ?([^)]*)\);", text)
    if R.check(len(m) == 1, "emit:main", "the participants are forked %d times" % len(m)):
        th, en = [[x.strip() for x in y.split(",") if x.strip()] for y in m[0]]
        R.check(en == ["endpoint_%s_0_v_0" % r.lower() for r in ROLES], "emit:fork-order", "the participants are forked as %s" % en)
        R.check(th == ["thread_%s" % r.lower() for r in ROLES], "emit:fork-handles", "the threads are named %s" % th)
    R.sample("text of %d characters from %s" % (len(text), ", ".join(short(k) for k, _ in called)))


def count(text, w):
    t, w = squeeze(text), squeeze(w)
    return len(re.findall(r"(?<![\w])" + re.escape(w), t))


def squeeze(s):
    """blanks matter only between two words"""
    return re.sub(r" (?=\W)|(?<=\W) ", "", s.strip())


def emitters(R, F):
    """[(function, constant flags)] of the code emitter called by the generator on a path that succeeds"""
    if not R.check(LINE in F.fns, "process_line:missing", "the function that handles a line is gone"):
        return None
    names = [k for k in F.fns if "::code_generate::" in k and "{" not in k and "body" in F.fns[k]]
    kinds = [kind_of(t) for t in F.fns[LINE]["inputs"]]

    def handled(I, st, a, c):
        # all lines are read
        t = ("t", ("call", st.fresh(), LINE), c.dty)
        for i, k in enumerate(kinds):
            if a[i] is not None and a[i][0] in ("r", "t"):
                c1, p1 = I.deref_loc(st, a[i])
                I.store(st, c1, p1, ("it", ()) if k == "lines" else ("t", ("mut", st.fresh(), i), F.fns[LINE]["inputs"][i][2]))
        return [(st, t)]

    mods = MODELS.copy()
    mods.exact[F.fns[LINE]["nice"]] = mods.exact[LINE] = handled
    ps, _ = R.paths_of(F, GEN, mods=mods, opaque=[lambda nice, key: "::code_generate::" in key or key.endswith("::check_fsm")])
    if ps is None:
        return None
    best = None
    for p in ps:
        if outcome(p) != "ok":
            continue
        es = [e for e in p.ev("call") if e[1] in names]
        l = tuple((e[1], tuple(a[1] for a in e[2] if a is not None and a[0] == "i")) for e in es)
        if best is None:
            best = l
        R.check(set(l) == set(best) and len(set(l)) == len(l), "generator:emitters", "the parts of the code are not written once each on every path", p)
    R.check(best, "generator:none", "the generator emits nothing")
    return best


def texts_of(R, F, key, flags, b, g, tree):
    """texts written on the paths of an emitter on which no write failed"""
    tag = short(key)
    f = F.fns[key]
    st = b.st
    flags = list(flags)
    args = []
    for ty in f["inputs"]:
        t, byref = ty, False
        while t[0] == "ref":
            t, byref = t[2], True
        if t[0] == "adt" and t[1].endswith("::GlobalElements"):
            v = g
        elif t[0] == "adt" and t[1].endswith("::Tree"):
            v = tree
        elif t[0] == "adt" and t[1].endswith("Vec"):
            v = ("l", ())
        elif t[0] == "prim" and flags:
            v = ("i", flags.pop(0))
        elif t[0] == "adt" and t[1].endswith(("HashSet", "BTreeSet")):
            v = ("l", ())
        else:
            R.check(False, tag + ":arguments", "%s takes an argument of an unexpected kind" % tag)
            return None
        if byref:
            cell = ("H", st.fresh())
            st.mem[cell] = v
            v = ("r", cell, ())
        args.append(v)
    case = Case(R, F, {}, {})
    case.ids = dict(b.ids)

    def oracle(t):
        try:
            v = case.val(t)
        except Unknown:
            return None
        return int(v) if isinstance(v, (bool, int)) else None

    ps, _ = R.paths_of(F, key, args=args, st=st, mods=emit_models(None), oracle=oracle)
    if ps is None:
        return None
    out = []
    for p in ps:
        if not R.check(p.kind in ("return",), tag + ":" + p.kind, "%s ends with %s" % (tag, p.kind), p):
            continue
        es = p.ev("emit")
        lost = [e for e in es if p.tags.get(e[2]) != 0]
        if lost:
            R.count("failing writes")
            R.check(outcome(p) == "err" or p.value == lost[-1][2], tag + ":ignored", "%s goes on after a write that %s" % (tag, "failed" if p.tags.get(lost[0][2]) == 1 else "may have failed"), p)
            continue
        if outcome(p) != "ok":
            continue
        try:
            out.append("".join(case.val(e[1]) if isinstance(case.val(e[1]), str) else "".join(map(chr, case.val(e[1]))) for e in es))
        except Unknown as u:
            R.check(False, tag + ":unknown", "what %s writes cannot be told: %s" % (tag, u), p)
            return None
    R.check(out, tag + ":none", "%s never succeeds" % tag)
    return out
